"""Bellman-Ford distances and negative-cycle reports."""

from symgb import terms as T

from .spec import Inst, adj, bellman, negative_cycles, reach, wadj

WEIGHTS = {
    "FP64": ("real", -64, 64),
    "INT64": ("int", -4, 4),
    "INT8": ("int", -4, 4),
    "UINT8": ("int", 0, 5),
    "BOOL": ("bool",),
    "pos": ("real", 0, 64),
    "isoFP64": ("isoreal", -64, 64),
    "isoINT64": ("isoint", -4, 4),
    "isoBOOL": ("isobool",),
    "isoUINT8": ("isoint", 0, 5),
}


def graph(ctx, n, directed, wt, keys="perm", loops=True, iso="sym", **kwargs):
    dtype = {"pos": "FP64"}.get(wt, wt.removeprefix("iso"))
    return ctx.graph(
        "A", n, directed=directed, dtype=dtype, weight=WEIGHTS[wt], keys=keys, loops=loops,
        iso=True if wt.startswith("iso") else iso, **kwargs,
    )


def neg_reachable(g, W, src):
    """a negative cycle is reachable from src"""
    R = reach(adj(g, offdiag=False), src)
    return T.b_or(*[T.b_and(R[c[0]], bad) for c, bad in negative_cycles(W)])


def single_source(ctx, n, directed, src, wt, keys="perm"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = graph(ctx, n, directed, wt, keys)
    W = wadj(g)
    neg = neg_reachable(g, W, src)
    try:
        rv = nxapi.single_source_bellman_ford_path_length(g.G, g.K[src])
    except nx.NetworkXUnbounded:
        ctx.check(neg, "Unbounded raised without a reachable negative cycle")
        return
    ctx.check(T.b_not(neg), "reachable negative cycle not reported")
    d, _ = bellman(W, src)
    got = ctx.as_map(rv)
    for j in range(n):
        p, v = got.get(g.K[j], (False, None))
        ctx.check(T.b_iff(p, d[j][0]), f"reached[{j}]")
        if p is not False:
            ctx.check_close(v, d[j][1], f"distance[{j}]", given=T.b_and(p, d[j][0], T.b_not(neg)))


def to_target(ctx, n, directed, src, dst, wt, keys="perm"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = graph(ctx, n, directed, wt, keys)
    W = wadj(g)
    A = adj(g, offdiag=False)
    negs = negative_cycles(W)
    R = reach(A, src)
    reachable_neg = T.b_or(*[T.b_and(R[c[0]], bad) for c, bad in negs])
    unbounded = T.b_or(
        *[T.b_and(R[c[0]], bad, reach(A, c[0])[dst]) for c, bad in negs]
    )
    try:
        rv = nxapi.bellman_ford_path_length(g.G, g.K[src], g.K[dst])
    except nx.NetworkXUnbounded:
        ctx.check(reachable_neg, "Unbounded raised without a reachable negative cycle")
        return
    except nx.NetworkXNoPath:
        ctx.check(T.b_not(R[dst]), "NoPath raised although reachable")
        return
    d, _ = bellman(W, src)
    ctx.check(R[dst], "value returned for an unreachable target")
    ctx.check(T.b_not(unbounded), "finite distance returned although unbounded")
    ctx.check_close(ctx.num(rv), d[dst][1], "distance", given=T.b_and(R[dst], T.b_not(unbounded)))


def all_pairs(ctx, n, directed, wt, chunk, keys="perm"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = graph(ctx, n, directed, wt, keys)
    W = wadj(g)
    neg = T.b_or(*[bad for _, bad in negative_cycles(W)])
    seen = []
    maps = []
    try:
        for s, m in nxapi.all_pairs_bellman_ford_path_length(g.G, chunksize=chunk):
            seen.append(s)
            maps.append(ctx.as_map(m))
    except nx.NetworkXUnbounded:
        ctx.check(neg, "Unbounded raised without a negative cycle")
        return
    ctx.check(T.b_not(neg), "negative cycle not reported")
    ctx.check(len(seen) == n and set(seen) == set(g.K), "one entry per source")
    for s, got in zip(seen, maps, strict=True):
        d, _ = bellman(W, g.ids[s])
        for j in range(n):
            p, v = got.get(g.K[j], (False, None))
            ctx.check(T.b_iff(p, d[j][0]), f"reached[{s},{j}]")
            if p is not False:
                ctx.check_close(
                    v, d[j][1], f"distance[{s},{j}]", given=T.b_and(p, d[j][0], T.b_not(neg))
                )


def lengths(ctx, n, directed, wt, nodes, expand):
    from graphblas_algorithms import algorithms

    g = graph(ctx, n, directed, wt)
    W = wadj(g)
    neg = T.b_or(*[neg_reachable(g, W, i) for i in nodes])
    try:
        D = algorithms.bellman_ford_path_lengths(
            g.G, [g.K[i] for i in nodes], expand_output=expand
        )
    except algorithms.exceptions.Unbounded:
        ctx.check(neg, "Unbounded raised without a reachable negative cycle")
        return
    ctx.check(T.b_not(neg), "negative cycle not reported")
    ctx.check(D.nrows == (n if expand else len(nodes)) and D.ncols == n, "shape")
    got = ctx.mat(D)
    for r, i in enumerate(nodes):
        d, _ = bellman(W, i)
        row = i if expand else r
        for j in range(n):
            p, v = got.get((row, j), (False, None))
            ctx.check(T.b_iff(p, d[j][0]), f"reached[{i},{j}]")
            if p is not False:
                ctx.check_close(
                    v, d[j][1], f"distance[{i},{j}]", given=T.b_and(p, d[j][0], T.b_not(neg))
                )
    if expand:
        for i in range(n):
            if i not in nodes:
                for j in range(n):
                    ctx.check(T.b_not(got.get((i, j), (False, None))[0]), f"row {i} empty")


BOUNDS = (
    "graphs on 3 nodes with every edge set incl. self-edges, directed and undirected, permuted "
    "labels, iso flag free; per-edge weights (float in [-64,64], int64/int8 in [-4,4], uint8 in "
    "[0,5], bool) and iso-valued graphs; every source, several targets; all-pairs chunk sizes "
    "None, 1, 2; thorough: also 4 nodes for non-negative and iso-valued weights and for integer "
    "weights without self-edges"
)
OUTSIDE = "more nodes, larger integer weights (overflow), nan/inf weights, weight functions"


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        for wt in WEIGHTS:
            for s in range(3):
                out.append(Inst("single_source", n=3, directed=d, src=s, wt=wt))
            for s, t in [(0, 2), (2, 1), (1, 1)]:
                out.append(Inst("to_target", n=3, directed=d, src=s, dst=t, wt=wt))
            for c in (None, 1, 2):
                out.append(Inst("all_pairs", n=3, directed=d, wt=wt, chunk=c))
            for nodes in ([1], [2, 0]) if wt in ("FP64", "BOOL", "UINT8") else ([1], [2, 0, 1]):
                out.append(Inst("lengths", n=3, directed=d, wt=wt, nodes=nodes, expand=True))
                out.append(Inst("lengths", n=3, directed=d, wt=wt, nodes=nodes, expand=False))
    for shape in ("path", "ring~", "lasso", "ladder", "back", "tree"):
        for wt in ("FP64", "INT64") if q else ("FP64", "INT64", "INT8", "UINT8", "BOOL", "pos"):
            m = 5 if q else 6
            if wt == "FP64":
                out.append(Inst("single_source", n=6, directed=True, src=0, wt=wt, shape=shape, shards=2))
                out.append(Inst("to_target", n=6, directed=True, src=0, dst=5, wt=wt, shape=shape, shards=2))
                if shape == "path" or (shape == "ladder" and not q):
                    out.append(Inst("single_source", n=5, directed=False, src=0, wt="pos", shape=shape, shards=2))
                    out.append(Inst("all_pairs", n=5, directed=False, chunk=3, wt="pos", shape=shape, shards=2))
            out.append(Inst("single_source", n=m, directed=True, src=1 if shape == "ring~" else 0, wt=wt, shape=shape, shards=2))
            out.append(Inst("to_target", n=m, directed=True, src=0, dst=m - 1, wt=wt, shape=shape, shards=2))
            for c in (None, 2):
                out.append(Inst("all_pairs", n=m, directed=True, chunk=c, wt=wt, shape=shape, shards=2))
            out.append(Inst("lengths", n=m, directed=True, wt=wt, nodes=[m - 1, 0], expand=shape == "back", shape=shape, shards=2))
    if not q:
        for wt in ("pos", "isoFP64", "isoINT64", "isoBOOL", "UINT8"):
            for s, t in [(0, 3), (2, 1)]:
                out.append(Inst("to_target", n=4, directed=False, src=s, dst=t, wt=wt, shards=4))
            out.append(Inst("single_source", n=4, directed=False, src=1, wt=wt, shards=4))
            if wt.startswith("iso"):
                out.append(Inst("single_source", n=4, directed=True, src=1, wt=wt, shards=6))
                out.append(Inst("to_target", n=4, directed=True, src=0, dst=3, wt=wt, shards=6))
                out.append(Inst("all_pairs", n=4, directed=False, chunk=None, wt=wt, shards=6))
    return out
