"""Unweighted reachability."""

from symgb import terms as T

from .spec import Inst, adj, reach


def _graph(ctx, n, directed, dtype="INT64", **kw):
    # stored edge values are symbolic (and may be zero): they must not matter
    w = {"INT64": ("int", 0, 1), "BOOL": ("bool",), "FP64": ("real", -1, 1)}[dtype]
    return ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, **kw)


def descendants(ctx, n, directed, src, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, keys=keys)
    rv = ctx.as_set(nxapi.descendants(g.G, g.K[src]))
    R = reach(adj(g), src)
    ctx.check_set(rv, {g.K[j]: R[j] if j != src else False for j in range(n)}, "descendants")


def ancestors(ctx, n, directed, src, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, keys=keys)
    rv = ctx.as_set(nxapi.ancestors(g.G, g.K[src]))
    R = reach(adj(g, transpose=True), src)
    ctx.check_set(rv, {g.K[j]: R[j] if j != src else False for j in range(n)}, "ancestors")


def component(ctx, n, src, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys)
    rv = ctx.as_set(nxapi.node_connected_component(g.G, g.K[src]))
    R = reach(adj(g), src)
    ctx.check_set(rv, {g.K[j]: R[j] for j in range(n)}, "node_connected_component")


def connected(ctx, n, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, False, dtype, keys=keys)
    rv = ctx.num(nxapi.is_connected(g.G))
    ctx.check(T.b_iff(T.to_bool(rv), T.b_and(*reach(adj(g), 0))), "is_connected")


def weakly(ctx, n, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, True, dtype, keys=keys)
    rv = ctx.num(nxapi.is_weakly_connected(g.G))
    R = reach(adj(g, undirected=True), 0)
    ctx.check(T.b_iff(T.to_bool(rv), T.b_and(*R)), "is_weakly_connected")


def has_path(ctx, n, directed, src, dst, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    g = _graph(ctx, n, directed, dtype, keys=keys)
    rv = ctx.num(nxapi.has_path(g.G, g.K[src], g.K[dst]))
    ctx.check(T.b_iff(T.to_bool(rv), reach(adj(g), src)[dst]), "has_path")


BOUNDS = (
    "all graphs and digraphs (self-edges, arbitrary stored edge values incl. 0, permuted node "
    "labels) on up to 6 nodes in the quick tier (7 for single-source reachability in the thorough "
    "tier), every source node, selected source/target pairs"
)
OUTSIDE = "graphs with more nodes; multigraphs; networkx inputs (conversion is checked separately)"


def instances(tier):
    q = tier == "quick"
    out = []
    n = 5 if q else 6
    for d in (False, True):
        for s in range(n):
            out.append(Inst("descendants", n=n, directed=d, src=s))
            out.append(Inst("ancestors", n=n, directed=d, src=s))
        out.append(Inst("descendants", n=n + 1, directed=d, src=0, dtype="BOOL", keys="str"))
        out.append(Inst("ancestors", n=n + 1, directed=d, src=n, dtype="FP64", keys="rev", shards=3))
        pairs = [(s, t) for s in range(n) for t in range(n)]
        for s, t in pairs if not q else [(0, n - 1), (2, 1), (1, 1), (n - 1, 0), (3, 2)]:
            out.append(Inst("has_path", n=n, directed=d, src=s, dst=t))
        out.append(Inst("has_path", n=n + 1, directed=d, src=1, dst=n, keys="str"))
    for s in range(n):
        out.append(Inst("component", n=n, src=s))
    for m in range(1, n + 2):
        out.append(Inst("connected", n=m))
        if m <= 4:
            out.append(Inst("weakly", n=m))
    out.append(Inst("weakly", n=5, shards=4))
    for shape in ("path~", "ring", "lasso", "tree~", "grid") if q else ("path~", "ring", "lasso", "tree~", "grid", "back", "wheel"):
        m = 8 if q else 10
        for d in (False, True):
            for s in (0, m // 2):
                out.append(Inst("descendants", n=m, directed=d, src=s, shape=shape))
                out.append(Inst("ancestors", n=m, directed=d, src=m - 1 - s, shape=shape))
            out.append(Inst("has_path", n=m, directed=d, src=0, dst=m - 1, shape=shape))
        out.append(Inst("component", n=m, src=m // 2, shape=shape))
        out.append(Inst("connected", n=m, shape=shape))
        out.append(Inst("weakly", n=m - 2, shape=shape, shards=2))
    if not q:
        out.append(Inst("weakly", n=6, shards=6))
    return out
