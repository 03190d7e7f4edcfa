"""ego_graph: the nodes within the radius and exactly the edges between them."""

from symgb import terms as T

from .spec import Inst, adj, bellman, reach_within, wadj


def _sub(ctx, g, R, inside, label):
    """R is the subgraph of g induced by the nodes with condition inside[i]"""
    ctx.check(R.is_directed() == g.directed, f"{label}: kind of graph")
    kid = dict(R._key_to_id)
    ctx.check(sorted(kid.values()) == list(range(len(R))), f"{label}: numbering")
    ctx.check(len(kid) == R._A.nrows == R._A.ncols, f"{label}: size")
    m = ctx.mat(R._A)
    for i in range(g.n):
        ctx.check(T.b_iff(g.K[i] in kid, inside[i]), f"{label}: node {g.K[i]}")
    ctx.check(all(k in g.ids for k in kid), f"{label}: labels")
    for i in range(g.n):
        for j in range(g.n):
            if g.K[i] in kid and g.K[j] in kid:
                p, v = m.get((kid[g.K[i]], kid[g.K[j]]), (False, None))
                ctx.check(T.b_iff(p, g.p(i, j)), f"{label}: edge {i}-{j}")
                both = T.b_and(p, g.p(i, j))
                if both is not False:
                    ctx.check(T.b_or(T.b_not(both), T.eq(v, g.w(i, j))), f"{label}: value {i}-{j}")


def _given(**kw):
    """what is the default is left out of the call"""
    default = {"radius": "default", "center": True, "undirected": False}
    return {k: v for k, v in kw.items() if v != default[k]}


def ego(ctx, n, directed, radii, undirected=False, dtype="INT64", loops=True, keys="perm"):
    """hops"""
    from graphblas_algorithms import nxapi

    w = {"INT64": ("int", -1, 1), "BOOL": ("bool",), "FP64": ("real", -1, 1)}[dtype]
    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, loops=loops, keys=keys, iso=None)
    src = ctx.choice("src", range(n))
    r = ctx.choice("radius", radii)
    center = ctx.choice("center", [True, False])
    before = ctx.snapshot(g.G._A)
    kw = _given(radius=r, center=center, undirected=undirected)
    R = nxapi.ego_graph(g.G, g.K[src], **kw)
    r = 1 if r == "default" else n if r is None else r
    inside = reach_within(adj(g, undirected=undirected), src, min(r, n - 1))[-1]
    if not center:
        inside = [False if i == src else x for i, x in enumerate(inside)]
    _sub(ctx, g, R, inside, "ego_graph")
    _same(ctx, g, before)


def _same(ctx, g, before):
    now = ctx.snapshot(g.G._A)
    ctx.check(set(now) == set(before), "graph unchanged")
    for k in now:
        ctx.check(T.b_iff(now[k][0], before[k][0]), "graph unchanged")
        ctx.check(T.b_or(T.b_not(now[k][0]), T.eq(now[k][1], before[k][1])), "graph unchanged")


def ego_distance(ctx, n, directed, dtype, undirected=False, hi=3, loops=True):
    """weighted distances: nodes whose distance is at most the radius"""
    from graphblas_algorithms import nxapi

    def half(i, j):  # 0, 0.5, 1 or 2.5
        a, b = ctx.bool(f"A.a{i}.{j}"), ctx.bool(f"A.b{i}.{j}")
        return T.if_(a, T.if_(b, 0.0, 0.5), T.if_(b, 1.0, 2.5))

    w = {"INT64": ("int", 0, hi), "FP64": half, "BOOL": ("bool",)}[dtype]
    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, keys="perm", loops=loops, iso=None)
    W = wadj(g)
    if undirected:
        # both directions of an edge have the same length
        for i in range(n):
            for j in range(i):
                both = T.b_and(g.p(i, j), g.p(j, i))
                ctx.assume(T.b_or(T.b_not(both), T.eq(g.w(i, j), g.w(j, i))))
        W = [[W[i][j] if i == j else (T.b_or(W[i][j][0], W[j][i][0]), T.if_(W[i][j][0], W[i][j][1], W[j][i][1]))
              for j in range(n)] for i in range(n)]
    src = ctx.choice("src", range(n))
    r = ctx.choice("radius", [0, 1, 2, 2.5])
    center = ctx.choice("center", [True, False])
    R = nxapi.ego_graph(g.G, g.K[src], **_given(radius=r, center=center, undirected=undirected), distance="weight")
    d, _ = bellman(W, src)
    inside = [T.b_and(p, T.le(v, r)) for p, v in d]
    if not center:
        inside = [False if i == src else x for i, x in enumerate(inside)]
    _sub(ctx, g, R, inside, "ego_graph by distance")


BOUNDS = (
    "every graph with 3 (undirected 4) nodes, self-edges included, every centre, radius 0..3 or none, "
    "with and without centre; distances 0..3 (float: 0, 0.5, 1, 2.5) on three nodes with radius 0, 1, 2, 2.5 (thorough one node more)"
)
OUTSIDE = "negative distances; undirected=True with different lengths for the two directions; fractional radius in hops"


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        out.append(Inst("ego", n=3, directed=d, radii=["default", 0, 2, 3, None]))
        out.append(Inst("ego", n=3, directed=d, radii=[1, 2], dtype="BOOL", keys="str"))
        out.append(Inst("ego", n=3, directed=d, radii=[1], undirected=True, dtype="FP64"))
        out.append(Inst("ego", n=4 if not d or not q else 3, directed=d, radii=[1, 2], loops=False))
        for dtype in ("INT64", "FP64", "BOOL"):
            out.append(Inst("ego_distance", n=3, directed=d, dtype=dtype, loops=not d and dtype != "FP64"))
    out.append(Inst("ego", n=3, directed=True, radii=[2], undirected=True))
    out.append(Inst("ego_distance", n=3, directed=True, dtype="INT64", undirected=True, loops=False))
    for shape in ("path~", "lasso", "tree", "back"):
        for d in (False, True):
            out.append(Inst("ego", n=5 if q else 6, directed=d, radii=[2, 3, 4], shape=shape, shards=2))
        out.append(Inst("ego_distance", n=4 if q else 5, directed=True, dtype="INT64", shape=shape, shards=2))
    if not q:
        out.append(Inst("ego", n=4, directed=False, radii=["default", 2, 3, None]))
        out.append(Inst("ego", n=4, directed=True, radii=[1, 2], undirected=True, loops=False))
        out.append(Inst("ego_distance", n=4, directed=False, dtype="INT64", hi=2, loops=False))
    return out
