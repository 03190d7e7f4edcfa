"""A catalog of the library's public calls, and generic comparison of their results."""

import numpy as np

from symgb import terms as T

OK = None


def documented(ctx):
    """exceptions a call may answer with"""
    import networkx as nx

    return (nx.NetworkXException, ZeroDivisionError, KeyError, IndexError, ValueError)


class Call:
    def __init__(self, f, kinds="ud", w="int", cap=3, second=False, slow=False, decided=False):
        self.f = f
        self.kinds = kinds  # u: undirected, d: directed
        self.w = w  # weights: "pos" 1..2, "int" -1..2, "one"
        self.cap = cap  # largest number of nodes in the quick tier
        self.second = second  # takes a second graph
        self.decided = decided  # edges decided before the call (float iterations)


WEIGHTS = {"pos": ("int", 1, 2), "int": ("int", -1, 2), "nonneg": ("int", 0, 2), "w18": ("w18",), "one": "one"}
RANK = ["one", "w18", "pos", "nonneg", "int"]


def both(c, d):
    """requirements on a graph for two calls"""
    return Call(None, w=min(c.w, d.w, key=RANK.index), decided=c.decided or d.decided, second=c.second or d.second)


def graph(ctx, c, n, directed, name="A", keys="perm", dtype=None):
    present = (lambda i, j: ctx.decide(ctx.bool(f"{name}.p{i}.{j}"))) if c.decided else None
    if dtype is None:
        dtype = "FP64" if c.w == "w18" else "INT64"
    return ctx.graph(name, n, directed=directed, dtype=dtype, weight=WEIGHTS[c.w], keys=keys,
                     iso=True if c.w == "one" else None, present=present)


class Args:
    """objects handed to a call; the call must not change them"""

    def __init__(self):
        self.objs = []

    def __call__(self, obj):
        self.objs.append((obj, self._copy(obj)))
        return obj

    @staticmethod
    def _copy(o):
        if isinstance(o, dict):
            return dict(o)
        return type(o)(o)

    def check(self, ctx, label):
        for obj, before in self.objs:
            if isinstance(obj, dict):
                ctx.check(list(obj.items()) == list(before.items()), f"{label}: argument {before}")
            else:
                ctx.check(list(obj) == list(before), f"{label}: argument {before}")


def _matrix(x):
    return type(x).__name__ in ("Matrix", "TransposedMatrix")


def materialise(x):
    """iterators become lists (nested in tuples too)"""
    if isinstance(x, tuple):
        return tuple(materialise(y) for y in x)
    if hasattr(x, "__next__"):
        return [materialise(y) for y in x]
    return x


def observe(ctx, x):
    """a deep snapshot of a result: nested tuples of labels, raw values and presences"""
    from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
    from graphblas_algorithms.classes.nodeset import NodeSet

    if isinstance(x, NodeSet):
        return "set", ctx.as_set(x)
    if isinstance(x, NodeMap):
        if x._values_are_keys:
            return "map", {k: observe(ctx, v) for k, v in x.items()}
        return "nums", ctx.as_map(x)
    if isinstance(x, (NodeNodeMap, VectorNodeMap)):
        m = ctx.mat(x.matrix)
        cols = x._key_to_id if isinstance(x, NodeNodeMap) else {i: i for i in range(x.matrix.ncols)}
        out = {}
        for k, i in x._key_to_id.items():
            for c, j in cols.items():
                if (i, j) in m:
                    out[k, c] = m[i, j]
        return "nums", out
    if isinstance(x, VectorMap):
        return "nums", {i: (True, v) if not isinstance(v, tuple) else v for i, v in ctx.vec(x.vector).items()}
    if hasattr(x, "_key_to_id") and hasattr(x, "_A"):
        m = ctx.mat(x._A)
        kid = x._key_to_id
        return "graph", (x.is_directed(), list(kid), {(a, b): m[i, j] for a, i in kid.items() for b, j in kid.items() if (i, j) in m})
    if _matrix(x):
        return "nums", ctx.mat(x)
    if type(x).__name__ == "Vector":
        return "nums", ctx.vec(x)
    if isinstance(x, np.ndarray):
        return "nums", {k: (True, ctx.num(v)) for k, v in np.ndenumerate(x)}
    if isinstance(x, dict):
        return "map", {k: observe(ctx, v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return "set", dict.fromkeys(x, True)
    if isinstance(x, (list, tuple)):
        return "seq", [observe(ctx, y) for y in x]
    if x is None or isinstance(x, str):
        return "const", x
    if type(x).__name__ == "Scalar":
        return ("const", None) if x.value is None else ("num", ctx.num(x.value))
    return "num", ctx.num(x)


def same(ctx, a, b, label):
    """two observations are equal"""
    if a[0] != b[0]:
        ctx.fail(f"{label}: {a[0]} and {b[0]}")
        return
    kind, x = a
    y = b[1]
    if kind == "const":
        ctx.check(x == y, label)
    elif kind == "num":
        _num(ctx, x, y, True, label)
    elif kind == "set":
        ctx.check_set(x, y, label)
    elif kind == "nums":
        _nums(ctx, x, y, label)
    elif kind == "map":
        ctx.check(set(x) == set(y), f"{label}: keys")
        for k in x:
            if k in y:
                same(ctx, x[k], y[k], f"{label}[{k}]")
    elif kind == "seq":
        ctx.check(len(x) == len(y), f"{label}: length")
        for i, (p, q) in enumerate(zip(x, y)):  # noqa: B905
            same(ctx, p, q, f"{label}[{i}]")
    elif kind == "graph":
        ctx.check(x[0] == y[0], f"{label}: directed")
        ctx.check(x[1] == y[1], f"{label}: labels")
        _nums(ctx, x[2], y[2], label)


def _nums(ctx, x, y, label):
    for k in set(x) | set(y):
        p, v = x.get(k, (False, None))
        q, w = y.get(k, (False, None))
        ctx.check(T.b_iff(p, q), f"{label}[{k}]: presence")
        both = T.b_and(p, q)
        if both is not False:
            _num(ctx, v, w, both, f"{label}[{k}]")


def _num(ctx, v, w, given, label):
    if v is w:
        return
    if T.is_const(v) and T.is_const(w) and v != v and w != w:  # nan
        return
    if T.special(v) or T.special(w):
        ctx.check(T.b_or(T.b_not(given), T.is_const(v) and T.is_const(w) and v == w), label)
        return
    if ctx.exact:
        ctx.check(T.b_or(T.b_not(given), T.eq(v, w)), label)
    else:
        ctx.check_close(v, w, label, 1e-9, given=given)


def spoil(x):
    """change whatever the caller may change in a result"""
    from graphblas_algorithms.classes.nodemap import NodeMap, NodeNodeMap, VectorMap, VectorNodeMap
    from graphblas_algorithms.classes.nodeset import NodeSet

    if isinstance(x, (NodeSet, NodeMap, VectorMap, NodeNodeMap, VectorNodeMap)):
        x.clear()
    elif hasattr(x, "_key_to_id") and hasattr(x, "_A"):
        x.matrix.clear()
        x.graph["name"] = "spoiled"
    elif type(x).__name__ in ("Matrix", "Vector"):
        x.clear()
    elif isinstance(x, np.ndarray):
        if x.size:
            x[...] = 0
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x.clear()
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.clear()


def _a(g, i):
    return g.K[i]


CALLS = {}


def call(name, **kw):
    def deco(f):
        CALLS[name] = Call(f, **kw)
        return f

    return deco


def _simple():
    def add(name, f, **kw):
        CALLS[name] = Call(f, **kw)

    U = dict(kinds="u")
    D = dict(kinds="d")
    k = lambda g: g.K  # noqa: E731
    add("edge_boundary", lambda x, g, A: x.edge_boundary(g.G, A([k(g)[0]]), A([k(g)[1]])))
    add("edge_boundary1", lambda x, g, A: x.edge_boundary(g.G, A({k(g)[0]})))
    add("node_boundary", lambda x, g, A: x.node_boundary(g.G, A([k(g)[0]]), A(list(k(g)[1:]))))
    for f in ("degree_centrality",):
        add(f, lambda x, g, A, f=f: getattr(x, f)(g.G))
    for f in ("in_degree_centrality", "out_degree_centrality"):
        add(f, lambda x, g, A, f=f: getattr(x, f)(g.G), **D)
    add("eigenvector_centrality", lambda x, g, A: x.eigenvector_centrality(g.G, max_iter=2, tol=0.5, nstart=A({v: 1.0 for v in k(g)})), w="one", decided=True, cap=2)
    add("katz_centrality", lambda x, g, A: x.katz_centrality(g.G, alpha=0.1, beta=A({v: 1.0 for v in k(g)}), nstart=A({v: 0.0 for v in k(g)}), max_iter=2, tol=0.5, normalized=False), w="one", decided=True, cap=2)
    add("triangles", lambda x, g, A: x.triangles(g.G), **U)
    add("triangles_nodes", lambda x, g, A: x.triangles(g.G, A([k(g)[0]])), **U)
    add("triangles_one", lambda x, g, A: x.triangles(g.G, k(g)[0]), **U)
    add("transitivity", lambda x, g, A: x.transitivity(g.G), w="nonneg")
    for wname, weight in (("", None), ("_w", "weight")):
        w = "w18"
        add("clustering" + wname, lambda x, g, A, weight=weight: x.clustering(g.G, weight=weight), w=w)
        add("clustering_one" + wname, lambda x, g, A, weight=weight: x.clustering(g.G, k(g)[0], weight=weight), w=w)
        add("clustering_nodes" + wname, lambda x, g, A, weight=weight: x.clustering(g.G, A([k(g)[0]]), weight=weight), w=w)
        for cz in (True, False):
            add(f"average_clustering{wname}{'' if cz else '_nz'}", lambda x, g, A, weight=weight, cz=cz: x.average_clustering(g.G, weight=weight, count_zeros=cz), w=w)
    add("average_clustering_nodes", lambda x, g, A: x.average_clustering(g.G, A(list(k(g)[:2]))), w="w18")
    add("generalized_degree", lambda x, g, A: x.generalized_degree(g.G), w="nonneg", **U)
    add("generalized_degree_one", lambda x, g, A: x.generalized_degree(g.G, k(g)[0]), w="nonneg", **U)
    add("square_clustering", lambda x, g, A: x.square_clustering(g.G), w="one", **U)
    add("square_clustering_nodes", lambda x, g, A: x.square_clustering(g.G, A([k(g)[0]]), chunksize=1), w="one", **U)
    add("intra_community_edges", lambda x, g, A: x.community.quality.intra_community_edges(g.G, A([frozenset(k(g)[:1]), frozenset(k(g)[1:])])))
    add("inter_community_edges", lambda x, g, A: x.community.quality.inter_community_edges(g.G, A([frozenset(k(g)[:1]), frozenset(k(g)[1:])])))
    add("is_connected", lambda x, g, A: x.is_connected(g.G), **U)
    add("node_connected_component", lambda x, g, A: x.node_connected_component(g.G, k(g)[0]), **U)
    add("is_weakly_connected", lambda x, g, A: x.is_weakly_connected(g.G), **D)
    add("k_truss", lambda x, g, A: x.k_truss(g.G, 3), **U)
    add("k_truss2", lambda x, g, A: x.k_truss(g.G, 2), **U)
    for f in ("cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion"):
        add(f, lambda x, g, A, f=f: getattr(x, f)(g.G, A([k(g)[0]]), weight="weight"), w="nonneg")
        add(f + "_two", lambda x, g, A, f=f: getattr(x, f)(g.G, A([k(g)[0]]), A([k(g)[1]])), w="nonneg")
    add("volume", lambda x, g, A: x.volume(g.G, A([k(g)[0]]), weight="weight"))
    add("node_expansion", lambda x, g, A: x.node_expansion(g.G, A([k(g)[0]])))
    add("boundary_expansion", lambda x, g, A: x.boundary_expansion(g.G, A([k(g)[0]])))
    add("descendants", lambda x, g, A: x.descendants(g.G, k(g)[0]))
    add("ancestors", lambda x, g, A: x.ancestors(g.G, k(g)[0]))
    add("is_dominating_set", lambda x, g, A: x.is_dominating_set(g.G, A({k(g)[0]})))
    add("efficiency", lambda x, g, A: x.efficiency(g.G, k(g)[0], k(g)[1]), **U)
    add("ego_graph", lambda x, g, A: x.ego_graph(g.G, k(g)[0]))
    add("ego_graph_nc", lambda x, g, A: x.ego_graph(g.G, k(g)[0], radius=1, center=False))
    add("ego_graph_u", lambda x, g, A: x.ego_graph(g.G, k(g)[0], undirected=True), **D)
    add("ego_graph_d", lambda x, g, A: x.ego_graph(g.G, k(g)[0], radius=2, distance="weight"), w="pos")
    add("is_isolate", lambda x, g, A: x.is_isolate(g.G, k(g)[0]))
    add("isolates", lambda x, g, A: x.isolates(g.G))
    add("number_of_isolates", lambda x, g, A: x.number_of_isolates(g.G))
    add("adjacency_matrix", lambda x, g, A: x.linalg.adjacency_matrix(g.G))
    add("adjacency_matrix_nl", lambda x, g, A: x.linalg.adjacency_matrix(g.G, A(list(g.G))))
    add("adjacency_matrix_nw", lambda x, g, A: x.linalg.adjacency_matrix(g.G, dtype="float64", weight=None))
    add("laplacian_matrix", lambda x, g, A: x.linalg.laplacian_matrix(g.G), **U)
    add("laplacian_matrix_nl", lambda x, g, A: x.linalg.laplacian_matrix(g.G, A(list(g.G))), **U)
    add("normalized_laplacian_matrix", lambda x, g, A: x.linalg.normalized_laplacian_matrix(g.G), w="one", decided=True, **U)
    add("bethe_hessian_matrix", lambda x, g, A: x.linalg.bethe_hessian_matrix(g.G, r=2), w="one", **U)
    add("modularity_matrix", lambda x, g, A: x.linalg.modularity_matrix(g.G), w="one", decided=True, **U)
    add("directed_modularity_matrix", lambda x, g, A: x.linalg.directed_modularity_matrix(g.G), w="one", decided=True, **D)
    add("hits", lambda x, g, A: x.hits(g.G, max_iter=2, tol=0.5, nstart=A({v: 1.0 for v in k(g)})), w="one", decided=True, cap=2)
    add("google_matrix", lambda x, g, A: x.google_matrix(g.G, personalization=A({k(g)[0]: 1.0}), dangling=A({k(g)[1]: 1.0})), w="one", decided=True, cap=2)
    add("pagerank", lambda x, g, A: x.pagerank(g.G, max_iter=2, tol=0.5, nstart=A({v: 1.0 for v in k(g)}), personalization=A({k(g)[0]: 1.0}), dangling=A({k(g)[1]: 1.0})), w="one", decided=True, cap=2)
    add("lowest_common_ancestor", lambda x, g, A: x.lowest_common_ancestor(g.G, k(g)[0], k(g)[1]), **D)
    add("complement", lambda x, g, A: x.complement(g.G))
    add("reverse", lambda x, g, A: x.reverse(g.G), **D)
    add("to_undirected", lambda x, g, A: g.G.to_undirected(), **D)
    add("to_undirected_r", lambda x, g, A: g.G.to_undirected(reciprocal=True), **D)
    add("overall_reciprocity", lambda x, g, A: x.overall_reciprocity(g.G), **D)
    add("reciprocity", lambda x, g, A: x.reciprocity(g.G, A([k(g)[0]])), **D)
    add("reciprocity_one", lambda x, g, A: x.reciprocity(g.G, k(g)[0]), **D)
    add("is_regular", lambda x, g, A: x.is_regular(g.G))
    add("is_k_regular", lambda x, g, A: x.is_k_regular(g.G, 1), **U)
    add("floyd_warshall", lambda x, g, A: x.floyd_warshall(g.G), w="pos")
    add("floyd_warshall_nw", lambda x, g, A: x.floyd_warshall(g.G, weight=None), w="pos")
    add("floyd_warshall_numpy", lambda x, g, A: x.floyd_warshall_numpy(g.G, nodelist=A(sorted(k(g)))), w="pos")
    add("floyd_warshall_predecessor_and_distance", lambda x, g, A: x.floyd_warshall_predecessor_and_distance(g.G), w="pos", cap=2)
    add("has_path", lambda x, g, A: x.has_path(g.G, k(g)[0], k(g)[1]))
    add("single_source_shortest_path_length", lambda x, g, A: x.single_source_shortest_path_length(g.G, k(g)[0]))
    add("single_target_shortest_path_length", lambda x, g, A: x.single_target_shortest_path_length(g.G, k(g)[0]))
    add("all_pairs_shortest_path_length", lambda x, g, A: x.all_pairs_shortest_path_length(g.G, cutoff=1))
    add("all_pairs_shortest_path_length_c", lambda x, g, A: x.all_pairs_shortest_path_length(g.G, chunksize=1))
    add("bellman_ford_path_length", lambda x, g, A: x.bellman_ford_path_length(g.G, k(g)[0], k(g)[1]), cap=2)
    add("bellman_ford_path", lambda x, g, A: x.bellman_ford_path(g.G, k(g)[0], k(g)[1]), cap=2)
    add("single_source_bellman_ford_path_length", lambda x, g, A: x.single_source_bellman_ford_path_length(g.G, k(g)[0]), cap=2)
    add("all_pairs_bellman_ford_path_length", lambda x, g, A: x.all_pairs_bellman_ford_path_length(g.G), cap=2)
    add("negative_edge_cycle", lambda x, g, A: x.negative_edge_cycle(g.G), cap=2)
    add("is_simple_path", lambda x, g, A: x.is_simple_path(g.G, A([k(g)[0], k(g)[1]])))
    add("s_metric", lambda x, g, A: x.s_metric(g.G, normalized=False))
    add("mutual_weight", lambda x, g, A: x.structuralholes.mutual_weight(g.G, k(g)[0], k(g)[1], weight="weight"))
    for f in ("is_tournament", "score_sequence", "tournament_matrix"):
        add(f, lambda x, g, A, f=f: getattr(x.tournament, f)(g.G), **D)
    add("bfs_layers", lambda x, g, A: x.bfs_layers(g.G, A([k(g)[0]])))
    add("descendants_at_distance", lambda x, g, A: x.descendants_at_distance(g.G, k(g)[0], 1))
    add("is_triad", lambda x, g, A: x.is_triad(g.G))
    for f in ("union", "disjoint_union", "intersection", "difference", "symmetric_difference", "compose", "full_join"):
        add(f, lambda x, g, h, A, f=f: getattr(x, f)(g.G, h.G), second=True, cap=2)
    for f in ("fast_could_be_isomorphic", "faster_could_be_isomorphic"):
        add(f, lambda x, g, h, A, f=f: getattr(x, f)(g.G, h.G), second=True, cap=2, kinds="u")


_simple()


def run(ctx, name, g, h=None, args=None, nxapi=None):
    """(observation of the answer or of the documented refusal, the answer)"""
    if nxapi is None:
        from graphblas_algorithms import nxapi

    c = CALLS[name]
    args = Args() if args is None else args
    try:
        res = c.f(nxapi, g, h, args) if c.second else c.f(nxapi, g, args)
        res = materialise(res)
    except documented(ctx) as e:
        return ("const", type(e).__name__), None
    return observe(ctx, res), res
