"""Hop distances."""

from symgb import terms as T

from .spec import Inst, adj, hop, hop_exactly, opt


def _graph(ctx, n, directed, dtype="INT64", **kw):
    w = {"INT64": ("int", 0, 1), "BOOL": ("bool",), "FP64": ("real", -1, 1)}[dtype]
    return ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, **kw)


def _cut(H, cutoff):
    if cutoff is None:
        return H
    return [(T.b_and(p, T.le(d, cutoff)), d) for p, d in H]


def _cutoff(ctx, n):
    return ctx.choice("cutoff", [None, *(range(n + 2) if n < 50 else (n - 3,))])


def single_source(ctx, n, directed, src, target, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, keys=keys)
    cutoff = _cutoff(ctx, n)
    if target:
        rv = nxapi.single_target_shortest_path_length(g.G, g.K[src], *opt(cutoff))
        H = hop(adj(g, transpose=True), src)
    else:
        rv = nxapi.single_source_shortest_path_length(g.G, g.K[src], *opt(cutoff))
        H = hop(adj(g), src)
    H = _cut(H, cutoff)
    ctx.check_map(ctx.as_map(rv), {g.K[j]: H[j] for j in range(n)}, "distance")


def all_pairs(ctx, n, directed, chunk, keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, keys=keys)
    cutoff = ctx.choice("cutoff", [None, 0, 1, 2, n + 1])
    seen = []
    for s, d in nxapi.all_pairs_shortest_path_length(g.G, *opt(cutoff), chunksize=chunk):
        seen.append(s)
        H = _cut(hop(adj(g), g.ids[s]), cutoff)
        ctx.check_map(ctx.as_map(d), {g.K[j]: H[j] for j in range(n)}, f"distance[{s}]")
    ctx.check(len(seen) == n and set(seen) == set(g.K), "one entry per source")


def all_pairs_nodes(ctx, n, directed, nodes, expand):
    from graphblas_algorithms import algorithms

    g = _graph(ctx, n, directed)
    D = algorithms.all_pairs_shortest_path_length(
        g.G, nodes=[g.K[i] for i in nodes], expand_output=expand
    )
    got = ctx.mat(D)
    want = {}
    for r, i in enumerate(nodes):
        H = hop(adj(g), i)
        for j in range(n):
            want[i if expand else r, j] = H[j]
    ctx.check(D.nrows == (n if expand else len(nodes)) and D.ncols == n, "shape")
    ctx.check_map(got, want, "D")


def layers(ctx, n, directed, sources, keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, keys=keys)
    arg = g.K[sources] if isinstance(sources, int) else [g.K[i] for i in sources]
    src = [sources] if isinstance(sources, int) else sources
    H = hop(adj(g), src)
    rv = list(nxapi.bfs_layers(g.G, arg))
    for k in range(max(len(rv), n)):
        E = [T.b_and(p, T.eq(d, k)) for p, d in H]
        got = rv[k] if k < len(rv) else []
        ctx.check(len(got) == len(set(got)), "no repeats")
        ctx.check_set({x: True for x in got}, {g.K[j]: E[j] for j in range(n)}, f"layer {k}")
    ctx.check(all(rv), "no empty layer")


def at_distance(ctx, n, directed, src, keys="perm", distances=None):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, keys=keys)
    k = ctx.choice("distance", distances or range(n + 2))
    rv = ctx.as_set(nxapi.descendants_at_distance(g.G, g.K[src], k))
    E = hop_exactly(adj(g), src, k)
    ctx.check_set(rv, {g.K[j]: E[j] for j in range(n)}, "descendants_at_distance")


def efficiency(ctx, n, src, dst):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False)
    rv = ctx.num(nxapi.efficiency(g.G, g.K[src], g.K[dst]))
    p, d = hop(adj(g), src)[dst]
    want = 0.0
    for k in range(n - 1, 0, -1):
        want = T.if_(T.b_and(p, T.eq(d, k)), 1.0 / k, want)
    ctx.check_close(rv, want, "efficiency")


def bidirectional(ctx, n, directed, src, dst):
    from graphblas_algorithms import algorithms

    g = _graph(ctx, n, directed)
    p, d = hop(adj(g), src)[dst]
    try:
        rv = ctx.num(algorithms.bidirectional_shortest_path_length(g.G, g.K[src], g.K[dst])) if hasattr(
            algorithms, "bidirectional_shortest_path_length"
        ) else ctx.num(_bidi()(g.G, g.K[src], g.K[dst]))
    except algorithms.exceptions.NoPath:
        ctx.check(T.b_not(p), "NoPath although reachable")
    else:
        ctx.check(T.b_and(p, T.eq(rv, d)), "bidirectional length")


def _bidi():
    from graphblas_algorithms.algorithms.shortest_paths import unweighted

    return unweighted.bidirectional_shortest_path_length


BOUNDS = (
    "all graphs/digraphs (self-edges, arbitrary stored values incl. 0, permuted labels) on up to "
    "5 nodes (quick; 6 thorough); every cutoff/distance from 0 to n+1 and None; chunk sizes 1, 2, "
    "3, all; selected source sets"
)
OUTSIDE = "larger graphs; negative or fractional cutoffs; multigraphs"


def instances(tier):
    q = tier == "quick"
    n = 4 if q else 5
    out = []
    for d in (False, True):
        for s in range(n):
            for t in (False, True):
                out.append(Inst("single_source", n=n, directed=d, src=s, target=t))
        for t in (False, True):
            out.append(Inst("single_source", n=n + 1, directed=d, src=1, target=t, keys="str"))
            out.append(
                Inst("single_source", n=n, directed=d, src=n - 1, target=t, dtype="BOOL")
            )
        for c in (None, 1, 2, 3):
            out.append(Inst("all_pairs", n=4, directed=d, chunk=c, shards=2 if d else 0))
        out.append(Inst("all_pairs", n=3, directed=d, chunk="2 chunks", keys="str"))
        if not q:
            for c in (None, 1, 2, 3):
                out.append(Inst("all_pairs", n=5, directed=d, chunk=c, shards=5))
        for nodes in ([2, 0], [1], [3, 1, 0], [0, 1, 2, 3], [1, 3, 0, 2]):
            for e in (False, True):
                out.append(Inst("all_pairs_nodes", n=4, directed=d, nodes=nodes, expand=e))
        for src in (0, n - 1, [1], [0, 2], [2, 1, 0], list(range(n))):
            out.append(Inst("layers", n=n, directed=d, sources=src, shards=0 if q else 3))
        for s in range(n):
            out.append(Inst("at_distance", n=n, directed=d, src=s))
        out.append(
            Inst("at_distance", n=n + 1, directed=d, src=2, keys="str", distances=[2, 3, n])
        )
        for s, t in [(0, n - 1), (2, 1), (1, 1), (n - 1, 0)]:
            out.append(Inst("bidirectional", n=n, directed=d, src=s, dst=t))
        out.append(Inst("bidirectional", n=n + 1, directed=d, src=0, dst=3))
    for shape in ("path~", "lasso", "ladder", "tree", "back"):
        m = 7 if q else 9
        for d in (False, True) if shape != "back" else (True,):  # undirected, it is the ladder
            for t in (False, True):
                out.append(Inst("single_source", n=m, directed=d, src=0, target=t, shape=shape, shards=2))
            for c in (None, 2):
                out.append(Inst("all_pairs", n=6, directed=d, chunk=c, shape=shape, shards=2))
            out.append(Inst("layers", n=m, directed=d, sources=[0, m - 1], shape=shape))
            out.append(Inst("layers", n=m, directed=d, sources=m // 2, shape=shape))
            out.append(Inst("at_distance", n=m, directed=d, src=1, shape=shape))
            out.append(Inst("bidirectional", n=m, directed=d, src=1, dst=m - 1, shape=shape))
        out.append(Inst("efficiency", n=m, src=0, dst=m - 1, shape=shape))
    big = 132 if q else 264
    for d in (False, True):
        out.append(Inst("single_source", n=big, directed=d, src=0 if d else big - 1, target=not d, shape="Path"))
        out.append(Inst("bidirectional", n=big, directed=d, src=0, dst=big - 1, shape="Path"))
    out.append(Inst("all_pairs_nodes", n=big, directed=True, nodes=[1, 0], expand=False, shape="Path"))
    out.append(Inst("layers", n=big, directed=False, sources=0, shape="Path"))
    out.append(Inst("at_distance", n=big, directed=True, src=0, distances=[big - 1], shape="Path"))
    out.append(Inst("efficiency", n=big, src=0, dst=big - 1, shape="Path"))
    for s, t in [(0, n - 1), (2, 1), (1, 0)]:
        out.append(Inst("efficiency", n=n, src=s, dst=t))
    out.append(Inst("efficiency", n=n + 1, src=0, dst=3))
    return out
