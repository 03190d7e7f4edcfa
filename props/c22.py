"""lowest_common_ancestor of two nodes of an acyclic graph."""

from symgb import terms as T

from .spec import Inst, adj, opt, reach

MARK = "no common ancestor"


def lca(ctx, n, dtype, order, default=None):
    """a common ancestor none of whose successors is one; the default exactly if there is none"""
    from graphblas_algorithms import nxapi

    rank = {x: k for k, x in enumerate(order)}

    def present(i, j):
        return None if rank[i] < rank[j] else False  # acyclic: edges follow the order

    w = {"INT64": ("int", 0, 1), "BOOL": ("bool",), "FP64": ("real", -1, 1)}[dtype]
    g = ctx.graph("A", n, directed=True, dtype=dtype, weight=w, loops=False, present=present, keys="perm", iso=None)
    a = ctx.choice("a", range(n))
    b = ctx.choice("b", range(n))
    before = ctx.snapshot(g.G._A)
    got = nxapi.lowest_common_ancestor(g.G, g.K[a], g.K[b], *opt(default))
    A = adj(g, transpose=True)
    ra, rb = reach(A, a), reach(A, b)
    common = [T.b_and(x, y) for x, y in zip(ra, rb, strict=True)]
    some = T.b_or(*common)
    if got is None or isinstance(got, str):
        ctx.check(got == default and (got is None) == (default is None), "the default is returned as it is")
        ctx.check(T.b_not(some), "there is no common ancestor")
        return
    ctx.check(got in g.ids, "the answer is a node")
    k = g.ids[got]
    ctx.check(common[k], "the answer is an ancestor of both")
    for s in range(n):
        ctx.check(T.b_not(T.b_and(g.p(k, s), common[s])), "no successor is a common ancestor")
    ctx.check(ctx.snapshot(g.G._A) == before if not ctx.sym else True, "the graph is unchanged")


BOUNDS = "every acyclic graph with up to 5 (thorough 6) nodes along several orders of the nodes, and with 6 (7) nodes every subset of several sparse shapes, every pair of nodes"
OUTSIDE = "graphs with cycles (the library documents acyclic graphs)"


def instances(tier):
    q = tier == "quick"
    out = []
    for dtype in ("INT64", "BOOL", "FP64"):
        out.append(Inst("lca", n=3, dtype=dtype, order=[2, 0, 1], default=None))
        out.append(Inst("lca", n=4, dtype=dtype, order=[0, 1, 2, 3], default=MARK))
    out.append(Inst("lca", n=4, dtype="INT64", order=[3, 2, 1, 0]))
    out.append(Inst("lca", n=4, dtype="INT64", order=[2, 0, 3, 1]))
    out.append(Inst("lca", n=4, dtype="BOOL", order=[1, 3, 0, 2], default=MARK))
    for shape in ("ladder", "back~", "hubs", "tree", "grid"):
        n = 6 if q else 7
        order = list(range(n)) if "~" not in shape else [(5 * i + 1) % n for i in range(n)]
        out.append(Inst("lca", n=n, dtype="INT64", order=order, default=MARK, shape=shape, shards=2))
    out += [Inst("lca", n=1, dtype="INT64", order=[0]), Inst("lca", n=2, dtype="BOOL", order=[1, 0], default=MARK)]
    for order in ([0, 1, 2, 3, 4], [4, 2, 0, 1, 3], [4, 3, 2, 1, 0]):
        out.append(Inst("lca", n=5, dtype="INT64", order=order, default=MARK, shards=2))
    if not q:
        out.append(Inst("lca", n=6, dtype="BOOL", order=[3, 5, 0, 2, 1, 4], default=MARK, shards=6, paths=200000))
    return out
