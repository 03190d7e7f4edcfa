"""Bellman-Ford paths."""

from symgb import terms as T

from .c05 import WEIGHTS, graph
from .spec import Inst, adj, bellman, negative_cycles, reach, wadj


def path(ctx, n, directed, src, dst, wt, keys="perm"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = graph(ctx, n, directed, wt, keys)
    W = wadj(g)
    A = adj(g, offdiag=False)
    negs = negative_cycles(W)
    R = reach(A, src)
    reachable_neg = T.b_or(*[T.b_and(R[c[0]], bad) for c, bad in negs])
    unbounded = T.b_or(*[T.b_and(R[c[0]], bad, reach(A, c[0])[dst]) for c, bad in negs])
    try:
        rv = nxapi.bellman_ford_path(g.G, g.K[src], g.K[dst])
    except nx.NetworkXUnbounded:
        ctx.check(reachable_neg, "Unbounded raised without a reachable negative cycle")
        return
    except nx.NetworkXNoPath:
        ctx.check(T.b_not(R[dst]), "NoPath raised although reachable")
        return
    ctx.check(R[dst], "path returned for an unreachable target")
    ctx.check(T.b_not(unbounded), "path returned although no shortest path exists")
    ctx.check(
        isinstance(rv, list) and rv[:1] == [g.K[src]] and rv[-1:] == [g.K[dst]], "end points"
    )
    ctx.check(len(set(rv)) == len(rv), "path repeats a node")
    ids = [g.ids[k] for k in rv]
    total = 0
    for a, b in zip(ids[:-1], ids[1:], strict=True):
        ctx.check(W[a][b][0], f"path uses a missing edge {a}->{b}")
        total = T.add(total, W[a][b][1])
    d, _ = bellman(W, src)
    ok = T.b_and(R[dst], T.b_not(unbounded), *[W[a][b][0] for a, b in zip(ids[:-1], ids[1:])])
    ctx.check_close(total, d[dst][1], "path is not a shortest path", given=ok)


BOUNDS = (
    "graphs on 3 nodes with every edge set incl. self-edges, directed and undirected, permuted "
    "labels, iso flag free; per-edge weights (float in [-64,64], int64/int8 in [-4,4], uint8 in "
    "[0,5], bool) and iso-valued graphs; every pair of end points; 4 nodes for non-negative and "
    "iso-valued weights (some end points; more in the thorough tier)"
)
OUTSIDE = "more nodes, integer overflow, nan/inf weights, weight functions"


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        for wt in WEIGHTS:
            for s in range(3):
                for t in range(3):
                    if s != t or s == 1:
                        out.append(Inst("path", n=3, directed=d, src=s, dst=t, wt=wt))
    for shape in ("path", "ring", "lasso~", "ladder", "back"):
        for wt in ("FP64", "INT64") if q else ("FP64", "INT64", "INT8", "UINT8", "BOOL", "pos"):
            m = 5 if q and wt != "FP64" else 6
            if wt == "FP64" and shape in ("path", "ladder"):
                out.append(Inst("path", n=5, directed=False, src=0, dst=4, wt="pos", shape=shape, shards=2))
            for s, t in [(0, m - 1), (1, m - 2)]:
                out.append(Inst("path", n=m, directed=True, src=s, dst=t, wt=wt, shape=shape, shards=2))
    for wt in ("UINT8",) if q else ("pos", "isoFP64", "isoINT64", "isoBOOL", "UINT8", "BOOL"):
        for s, t in [(0, 3)] if q else [(0, 3), (2, 1)]:
            out.append(Inst("path", n=4, directed=False, src=s, dst=t, wt=wt, shards=4))
            if wt.startswith("iso"):
                out.append(Inst("path", n=4, directed=True, src=s, dst=t, wt=wt, shards=6))
    return out
