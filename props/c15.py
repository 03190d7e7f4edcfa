"""Degree-like questions, small predicates and local measures."""

import itertools

from symgb import terms as T

from .spec import Inst, count, hop, adj

VALS = {"INT64": ("int", -1, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}


def _g(ctx, n, directed, dtype="INT64", keys="perm", loops=True, weight=None):
    return ctx.graph(
        "A", n, directed=directed, dtype=dtype, weight=weight or VALS[dtype], keys=keys,
        loops=loops, iso=None,
    )


def _deg(g):
    """degrees; a self-edge of an undirected graph counts once, of a directed graph in and out"""
    n = g.n
    if g.directed:
        return [T.add(o, i) for o, i in zip(_out(g), _in(g), strict=True)]
    return [count([g.p(i, j) for j in range(n)]) for i in range(n)]


def _out(g):
    return [count([g.p(i, j) for j in range(g.n)]) for i in range(g.n)]


def _in(g):
    return [count([g.p(i, j) for i in range(g.n)]) for j in range(g.n)]


def _bool(ctx, rv):
    """truth value of the answer (symbolic answers are decided)"""
    return bool(rv)


def _iff(ctx, rv, want, label):
    ctx.check(T.b_iff(_bool(ctx, rv), want), label)


def centrality(ctx, n, directed, what, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    d = {"degree": _deg, "in_degree": _in, "out_degree": _out}[what](g)
    for _ in range(2):  # asking again gives the same answer
        rv = getattr(nxapi, f"{what}_centrality")(g.G)
        if n <= 1:
            want = {k: (True, 1.0) for k in g.K}
        else:
            want = {g.K[i]: (True, T.div_real(T.to_real(d[i]), float(n - 1))) for i in range(n)}
        ctx.check_map(ctx.as_map(rv), want, f"{what} centrality", 1e-9)


def isolates(ctx, n, directed, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    iso = [T.eq(x, 0) for x in _deg(g)]
    ctx.check_set(
        ctx.as_set(nxapi.isolates(g.G)), {g.K[i]: iso[i] for i in range(n)}, "isolates"
    )
    ctx.check(T.eq(ctx.num(nxapi.number_of_isolates(g.G)), count(iso)), "number of isolates")
    i = ctx.choice("node", range(n))
    _iff(ctx, nxapi.is_isolate(g.G, g.K[i]), iso[i], "is_isolate")


def regular(ctx, n, directed, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    same = lambda d: T.b_and(*[T.eq(d[0], x) for x in d[1:]])  # noqa: E731
    want = T.b_and(same(_out(g)), same(_in(g)))
    _iff(ctx, nxapi.is_regular(g.G), want, "is_regular")


def k_regular(ctx, n, k, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, False, dtype)
    want = T.b_and(*[T.eq(x, k) for x in _deg(g)])
    _iff(ctx, nxapi.is_k_regular(g.G, k), want, "is_k_regular")


def dominating(ctx, n, directed, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    S = [i for i in range(n) if ctx.decide(ctx.bool(f"S{i}"))]
    rv = nxapi.is_dominating_set(g.G, [g.K[i] for i in S] + ["not a node"])
    want = T.b_and(*[T.b_or(*[g.p(i, j) for i in S]) for j in range(n) if j not in S])
    _iff(ctx, rv, want, "is_dominating_set")


def tournament(ctx, n, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, True, dtype)
    want = T.b_and(
        *[T.b_not(g.p(i, i)) for i in range(n)],
        *[
            T.b_not(T.b_iff(g.p(i, j), g.p(j, i)))
            for i, j in itertools.combinations(range(n), 2)
        ],
    )
    _iff(ctx, nxapi.tournament.is_tournament(g.G), want, "is_tournament")


def scores(ctx, n, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, True, dtype)
    rv = nxapi.tournament.score_sequence(g.G)
    ctx.check(isinstance(rv, list) and len(rv) == n, "a list with one number per node")
    got = [ctx.num(x) for x in rv]
    for a, b in zip(got, got[1:], strict=False):
        ctx.check(T.le(a, b), "scores are sorted")
    want = _out(g)
    for k in range(n + 1):  # the same multiset
        ctx.check(
            T.eq(count([T.eq(x, k) for x in got]), count([T.eq(x, k) for x in want])),
            f"number of nodes of score {k}",
        )


def tmatrix(ctx, n, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, True, dtype)
    M = ctx.mat(nxapi.tournament.tournament_matrix(g.G))
    for i in range(n):
        for j in range(n):
            a = T.if_(g.p(i, j), T.to_num(g.w(i, j)), 0)
            b = T.if_(g.p(j, i), T.to_num(g.w(j, i)), 0)
            p, v = M.get((i, j), (False, None))
            v = 0 if p is False else T.if_(p, T.to_num(v), 0)
            ctx.check(T.eq(v, T.sub(a, b)), f"tournament matrix [{i},{j}]")


def reciprocity(ctx, n, nodes, dtype="INT64"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = _g(ctx, n, True, dtype)

    def val(i):
        tot = T.add(_out(g)[i], _in(g)[i])
        ov = count([T.b_and(g.p(i, j), g.p(j, i)) for j in range(n)])
        r = 0.0
        for t in range(1, 2 * n + 1):
            r = T.if_(T.eq(tot, t), T.div_real(T.to_real(T.mul(ov, 2)), float(t)), r)
        return T.lt(0, tot), r

    if nodes is None:
        m = count(list(g.P.values()))
        try:
            rvs = [nxapi.reciprocity(g.G), nxapi.overall_reciprocity(g.G)]
        except nx.NetworkXError:
            ctx.check(T.eq(m, 0), "reciprocity of a graph with edges")
            return
        ctx.check(T.lt(0, m), "reciprocity of a graph without edges")
        ov = count([T.b_and(g.p(i, j), g.p(j, i)) for i in range(n) for j in range(n) if i != j])
        want = 0.0
        for t in range(1, n * n + 1):
            want = T.if_(T.eq(m, t), T.div_real(T.to_real(ov), float(t)), want)
        for rv in rvs:
            ctx.check_close(ctx.num(rv), want, "overall reciprocity")
        return
    if isinstance(nodes, int):
        p, v = val(nodes)
        try:
            rv = nxapi.reciprocity(g.G, g.K[nodes])
        except nx.NetworkXError:
            ctx.check(T.b_not(p), "reciprocity of a node with edges")
            return
        ctx.check(p, "reciprocity of an isolated node")
        ctx.check_close(ctx.num(rv), v, "reciprocity of one node")
        return
    rv = nxapi.reciprocity(g.G, [g.K[i] for i in nodes])
    # isolated nodes have no reciprocity
    ctx.check_map(ctx.as_map(rv), {g.K[i]: val(i) for i in nodes}, "reciprocity", 1e-9)


def s_metric(ctx, n, directed, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype, loops=directed)
    d = _deg(g)
    want = T.ssum(
        [T.if_(p, T.mul(d[i], d[j]), 0) for (i, j), p in g.P.items() if directed or i < j]
    )
    # products of degrees: decide the degrees first
    for x in d:
        ctx.value(x)
    ctx.check_close(ctx.num(nxapi.s_metric(g.G)), want, "s metric")


def simple_path(ctx, n, directed, length, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    names = [*range(n), None] if length < 4 else list(range(n))
    path = [ctx.choice(f"node{k}", names) for k in range(length)]
    keys = ["not a node" if i is None else g.K[i] for i in path]
    want = length > 0 and None not in path and len(set(path)) == length
    if want:
        want = T.b_and(*[g.p(i, j) for i, j in itertools.pairwise(path)])
    _iff(ctx, nxapi.is_simple_path(g.G, keys), want, f"is_simple_path {path}")


def triad(ctx, n, directed, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype)
    want = False
    if directed and n == 3:
        want = T.b_and(*[T.b_not(g.p(i, i)) for i in range(n)])
    _iff(ctx, nxapi.is_triad(g.G), want, "is_triad")


def mutual(ctx, n, directed, dtype, weighted):
    from graphblas_algorithms.nxapi.structuralholes import mutual_weight

    g = _g(ctx, n, directed, dtype)
    i, j = ctx.choice("u", range(n)), ctx.choice("v", [*range(n), None])
    kw = {"weight": "weight"} if weighted else {}
    rv = mutual_weight(g.G, g.K[i], "not a node" if j is None else g.K[j], **kw)
    want = 0
    if j is not None:
        for a, b in ((i, j), (j, i)):
            want = T.add(want, T.if_(g.p(a, b), T.to_num(g.w(a, b)) if weighted else 1, 0))
    ctx.check_close(ctx.num(rv), want, "mutual weight")


def efficiency(ctx, n, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, False, dtype)
    i, j = ctx.choice("u", range(n)), ctx.choice("v", range(n))
    if i == j:
        return
    p, d = hop(adj(g), i)[j]
    want = 0.0
    for k in range(1, n):
        want = T.if_(T.b_and(p, T.eq(d, k)), 1.0 / k, want)
    ctx.check_close(ctx.num(nxapi.efficiency_measures.efficiency(g.G, g.K[i], g.K[j])), want, "efficiency")


BOUNDS = (
    "every directed and undirected graph on 1-4 nodes (5 for single cases), self-edges included "
    "(a self-edge of an undirected graph counts once), arbitrary stored values (bool, int, float; "
    "negative and zero too), permuted labels, every node, node set and node sequence (length up to "
    "n+1, labels that are not nodes included)"
)
OUTSIDE = "the empty graph, s_metric of undirected graphs with self-edges, multigraphs"


def instances(tier):
    q = tier == "quick"
    out = []
    for dt in ("INT64", "BOOL", "FP64"):
        big = dt == "INT64"
        for d in (False, True):
            for n in (1, 2, 3, 4) if big else (3,):
                out.append(Inst("centrality", n=n, directed=d, what="degree", dtype=dt))
                out.append(Inst("isolates", n=n, directed=d, dtype=dt))
                out.append(Inst("regular", n=n, directed=d, dtype=dt))
                out.append(Inst("dominating", n=n, directed=d, dtype=dt))
            out.append(Inst("s_metric", n=3, directed=d, dtype=dt))
            for n in (2, 3, 4) if big else (3,):
                out.append(Inst("triad", n=n, directed=d, dtype=dt))
            for w in (False, True):
                out.append(Inst("mutual", n=2, directed=d, dtype=dt, weighted=w))
            for k in (0, 1, 2, 3, 4) if big else (3,):
                out.append(Inst("simple_path", n=3, directed=d, length=k, dtype=dt))
        for n in (1, 2, 3, 4) if big else (3,):
            for what in ("in_degree", "out_degree"):
                out.append(Inst("centrality", n=n, directed=True, what=what, dtype=dt))
            out.append(Inst("tournament", n=n, dtype=dt))
            for k in range(n + 2):
                out.append(Inst("k_regular", n=n, k=k, dtype=dt))
        for n in (1, 2, 3) if big else (3,):
            out.append(Inst("scores", n=n, dtype=dt))
        for n in (1, 3):
            out.append(Inst("tmatrix", n=n, dtype=dt))
        for nodes in (None, 0, 2, [1], [2, 0], [1, 0, 2], []):
            out.append(Inst("reciprocity", n=3, nodes=nodes, dtype=dt))
        out.append(Inst("efficiency", n=3, dtype=dt))
    out.append(Inst("efficiency", n=4))
    out.append(Inst("simple_path", n=4, directed=True, length=4))
    for shape in ("ring", "wheel~", "cliques+", "hubs"):
        n = 6 if q else 7
        for d in (False, True):
            for h in ("regular", "dominating", "isolates"):
                out.append(Inst(h, n=n, directed=d, shape=shape))
            out.append(Inst("centrality", n=n, directed=d, what="degree", shape=shape))
            out.append(Inst("s_metric", n=n - 1, directed=d, shape=shape))
            out.append(Inst("simple_path", n=4, directed=d, length=4, shape=shape))
            out.append(Inst("triad", n=n - 1, directed=d, shape=shape))
        for k in (2, 3):
            out.append(Inst("k_regular", n=n, k=k, shape=shape))
        out.append(Inst("efficiency", n=5, shape=shape))
        out.append(Inst("scores", n=4, shape=shape))
        out.append(Inst("tournament", n=n, shape=shape))
    for shape in ("back", "back+"):
        for nodes in (None, 2, [3, 1]):
            out.append(Inst("reciprocity", n=5, nodes=nodes, shape=shape))
    m = 132 if q else 264
    for d in (False, True):
        for h in ("isolates", "regular"):
            out.append(Inst(h, n=m, directed=d, shape="Star"))
        out.append(Inst("centrality", n=m, directed=d, what="degree", dtype="BOOL", shape="Star"))
        out.append(Inst("s_metric", n=m, directed=d, shape="Star"))
    for what in ("in_degree", "out_degree"):
        out.append(Inst("centrality", n=m, directed=True, what=what, shape="Star"))
    out.append(Inst("k_regular", n=m, k=m - 1, shape="Star"))
    for nodes in (None, 0, [2, 0]):
        out.append(Inst("reciprocity", n=m, nodes=nodes, shape="Star"))
    if not q:
        for d in (False, True):
            out.append(Inst("regular", n=5 - d, directed=d))
            out.append(Inst("dominating", n=5, directed=d))
            out.append(Inst("isolates", n=5, directed=d))
            out.append(Inst("s_metric", n=4, directed=d, shards=4))
            out.append(Inst("simple_path", n=4, directed=d, length=3))
            out.append(Inst("simple_path", n=4, directed=d, length=5))
        out.append(Inst("tournament", n=5))
        out.append(Inst("scores", n=4, shards=4))
        for k in range(5):
            out.append(Inst("k_regular", n=5, k=k))
        for nodes in (None, 0, [3, 1], [2, 1, 0, 3]):
            out.append(Inst("reciprocity", n=4, nodes=nodes))
        out.append(Inst("efficiency", n=5, shards=4))
    return out
