"""negative_edge_cycle."""

from symgb import terms as T

from .c05 import WEIGHTS, graph
from .spec import Inst, negative_cycles, wadj


def negcycle(ctx, n, directed, wt, keys="perm", loops=True):
    from graphblas_algorithms import nxapi

    g = graph(ctx, n, directed, wt, keys, loops=loops)
    W = wadj(g)
    neg = T.b_or(*[bad for _, bad in negative_cycles(W)])
    rv = nxapi.negative_edge_cycle(g.G)
    ctx.check(T.b_iff(ctx.num(rv), neg), "negative cycle exists iff reported")


BOUNDS = (
    "graphs on 1, 2, 3 nodes with every edge set incl. self-edges, directed and undirected, "
    "permuted labels, iso flag free; float, int64, int8, uint8, bool weights incl. zero; 4 nodes "
    "undirected, and directed without self-edges; on 5 and 6 nodes, every subset of the edges of a path, "
    "ring, lasso, ladder, path with edges back, with any weights; thorough: 4 nodes with "
    "self-edges, 5 nodes with every acyclic edge set, shapes on 7 nodes, the other value types"
)
OUTSIDE = "more nodes, integer overflow, nan/inf weights, weight functions"


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        for wt in WEIGHTS:
            for n in (1, 2, 3):
                out.append(Inst("negcycle", n=n, directed=d, wt=wt))
    for wt in ("FP64", "INT64", "isoFP64") if q else WEIGHTS:
        out.append(Inst("negcycle", n=4, directed=False, wt=wt, shards=4))
        out.append(Inst("negcycle", n=4, directed=True, wt=wt, shards=6, loops=not q))
    for shape in ("path", "ring", "lasso~", "ladder", "back", "wheel", "grid"):
        for n in (5, 6) if q else (5, 6, 7):
            for wt in ("FP64",) if q else ("FP64", "INT64", "INT8"):
                out.append(Inst("negcycle", n=n, directed=True, wt=wt, shape=shape, shards=4))
        if shape in ("path", "ring", "ladder"):
            out.append(Inst("negcycle", n=5, directed=False, wt="FP64", shape=shape, shards=4))
    if not q:
        out.append(Inst("negcycle", n=5, directed=True, wt="FP64", shape="dag", shards=8))
    return out
