"""Requests that make no sense are refused and never answered."""

from . import api
from .spec import Inst


def _node(f, **kw):
    return f, kw


# calls with one unknown node x among known ones (g.K)
UNKNOWN = {
    "descendants": lambda m, g, x: m.descendants(g.G, x),
    "ancestors": lambda m, g, x: m.ancestors(g.G, x),
    "has_path_source": lambda m, g, x: m.has_path(g.G, x, g.K[0]),
    "has_path_target": lambda m, g, x: m.has_path(g.G, g.K[0], x),
    "single_source": lambda m, g, x: m.single_source_shortest_path_length(g.G, x),
    "single_source_cutoff": lambda m, g, x: m.single_source_shortest_path_length(g.G, x, cutoff=1),
    "single_target": lambda m, g, x: m.single_target_shortest_path_length(g.G, x),
    "bellman_source": lambda m, g, x: m.single_source_bellman_ford_path_length(g.G, x),
    "bellman_length_source": lambda m, g, x: m.bellman_ford_path_length(g.G, x, g.K[0]),
    "bellman_length_target": lambda m, g, x: m.bellman_ford_path_length(g.G, g.K[0], x),
    "bellman_path_source": lambda m, g, x: m.bellman_ford_path(g.G, x, g.K[0]),
    "bellman_path_target": lambda m, g, x: m.bellman_ford_path(g.G, g.K[0], x),
    "bfs_layers": lambda m, g, x: list(m.bfs_layers(g.G, [g.K[0], x])),
    "bfs_layers_one": lambda m, g, x: list(m.bfs_layers(g.G, x)),
    "descendants_at_distance": lambda m, g, x: m.descendants_at_distance(g.G, x, 1),
    "ego_graph": lambda m, g, x: m.ego_graph(g.G, x),
    "ego_graph_distance": lambda m, g, x: m.ego_graph(g.G, x, distance="weight"),
    "is_isolate": lambda m, g, x: m.is_isolate(g.G, x),
    "node_connected_component": lambda m, g, x: m.node_connected_component(g.G, x),
    "efficiency_u": lambda m, g, x: m.efficiency(g.G, x, g.K[0]),
    "efficiency_v": lambda m, g, x: m.efficiency(g.G, g.K[0], x),
    "lca_1": lambda m, g, x: m.lowest_common_ancestor(g.G, x, g.K[0]),
    "lca_2": lambda m, g, x: m.lowest_common_ancestor(g.G, g.K[0], x),
    "triangles": lambda m, g, x: m.triangles(g.G, [g.K[0], x]),
    "clustering": lambda m, g, x: m.clustering(g.G, [g.K[0], x]),
    "average_clustering": lambda m, g, x: m.average_clustering(g.G, [g.K[0], x]),
    "square_clustering": lambda m, g, x: m.square_clustering(g.G, [g.K[0], x]),
    "generalized_degree": lambda m, g, x: m.generalized_degree(g.G, [g.K[0], x]),
    "reciprocity": lambda m, g, x: m.reciprocity(g.G, [g.K[0], x]),
    "volume": lambda m, g, x: m.volume(g.G, [g.K[0], x]),
    "node_expansion": lambda m, g, x: m.node_expansion(g.G, [g.K[0], x]),
    "pagerank_personalization": lambda m, g, x: m.pagerank(g.G, personalization={g.K[0]: 1, x: 1}),
    "google_matrix_nodelist": lambda m, g, x: m.google_matrix(g.G, nodelist=[*g.K[1:], x]),
    "katz_nstart": lambda m, g, x: m.katz_centrality(g.G, nstart={x: 1.0}, max_iter=3),
    "hits_nstart": lambda m, g, x: m.hits(g.G, nstart={x: 1.0}, max_iter=3),
    "floyd_warshall_numpy": lambda m, g, x: m.floyd_warshall_numpy(g.G, nodelist=[*g.K[1:], x]),
    "adjacency_matrix": lambda m, g, x: m.linalg.adjacency_matrix(g.G, nodelist=[*g.K[1:], x]),
    "laplacian_matrix": lambda m, g, x: m.linalg.laplacian_matrix(g.G, nodelist=[*g.K[1:], x]),
    "bethe_hessian_matrix": lambda m, g, x: m.linalg.bethe_hessian_matrix(g.G, r=2, nodelist=[*g.K[1:], x]),
    "modularity_matrix": lambda m, g, x: m.linalg.modularity_matrix(g.G, nodelist=[*g.K[1:], x]),
    "directed_modularity_matrix": lambda m, g, x: m.linalg.directed_modularity_matrix(g.G, nodelist=[*g.K[1:], x]),
}
FLOAT = {"pagerank_personalization", "google_matrix_nodelist", "katz_nstart", "hits_nstart",
         "modularity_matrix", "directed_modularity_matrix"}
ONLY = {"node_connected_component": "u", "efficiency_u": "u", "efficiency_v": "u", "lca_1": "d", "lca_2": "d",
        "triangles": "u", "square_clustering": "u", "generalized_degree": "u", "reciprocity": "d",
        "laplacian_matrix": "u", "bethe_hessian_matrix": "u", "modularity_matrix": "u", "directed_modularity_matrix": "d"}


def _errors():
    import networkx as nx

    return KeyError, nx.NetworkXException


def _same(ctx, g, before, keys):
    from symgb import terms as T

    now = ctx.snapshot(g.G._A)
    ctx.check(set(now) == set(before) and list(g.G) == keys, "the graph is unchanged")
    for k in now:
        if k in before:
            ctx.check(T.b_iff(now[k][0], before[k][0]), "the graph is unchanged")


def unknown(ctx, call, n, directed, keys):
    """a node that is not in the graph is an error, also if it is a valid position"""
    from graphblas_algorithms import nxapi

    present = (lambda i, j: ctx.decide(ctx.bool(f"A.p{i}.{j}"))) if call in FLOAT else None
    g = ctx.graph("A", n, directed=directed, dtype="INT64", weight="one" if call in FLOAT else ("int", 0, 2),
                  keys=keys, iso=True if call in FLOAT else None, present=present)
    before, order = ctx.snapshot(g.G._A), list(g.G)
    x = ctx.choice("x", ["nowhere", 0, -1, n, None] if keys == "str" else ["nowhere", -1, n, "0"])
    try:
        r = UNKNOWN[call](nxapi, g, x)
    except _errors():
        _same(ctx, g, before, order)
        return
    except TypeError:
        ctx.check(x is None or call == "bfs_layers_one", f"{call}: an error about the node")
        return
    if x is None:
        return  # None may stand for "all"
    ctx.fail(f"{call} answered {type(r).__name__} for the unknown node {x!r}")


WRONG_KIND = [
    "triangles", "generalized_degree", "is_connected", "node_connected_component", "k_truss", "efficiency",
    "bethe_hessian_matrix", "modularity_matrix", "is_weakly_connected", "in_degree_centrality",
    "out_degree_centrality", "lowest_common_ancestor", "directed_modularity_matrix", "reciprocity",
    "overall_reciprocity", "is_tournament", "score_sequence", "tournament_matrix", "is_k_regular", "reverse",
]


def kind(ctx, call, n):
    """a call that is only defined for directed (or undirected) graphs refuses the others"""
    import networkx as nx

    c = api.CALLS[call]
    directed = c.kinds == "u"
    g = api.graph(ctx, c, n, directed)
    before, order = ctx.snapshot(g.G._A), list(g.G)
    from graphblas_algorithms import nxapi

    try:
        c.f(nxapi, g, api.Args())
    except nx.NetworkXException:
        _same(ctx, g, before, order)
        return
    except (TypeError, AttributeError) as e:
        ctx.check(call in ("reciprocity", "overall_reciprocity", "reverse"), f"{call}: {type(e).__name__}")
        return
    ctx.fail(f"{call} answered for the wrong kind of graph")


def nodelist(ctx, call, n, directed):
    """a node list that misses or repeats a node is refused where every node is needed"""
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = ctx.graph("A", n, directed=directed, dtype="INT64", weight=("int", 0, 2), keys="str", iso=None)
    k = ctx.choice("nodes", [0, 1, 2])
    nodes = [g.K[:-1], [*g.K, g.K[0]], [*g.K[:-1], g.K[0]]][k]
    try:
        nxapi.floyd_warshall_numpy(g.G, nodelist=nodes)
    except nx.NetworkXError:
        return
    ctx.fail(f"{call} accepted the node list {nodes}")


EMPTY = [
    "degree_centrality", "in_degree_centrality", "out_degree_centrality", "triangles", "transitivity", "clustering",
    "average_clustering", "square_clustering", "generalized_degree", "is_connected", "is_weakly_connected",
    "isolates", "number_of_isolates", "complement", "reverse", "overall_reciprocity", "floyd_warshall",
    "all_pairs_shortest_path_length", "all_pairs_bellman_ford_path_length", "negative_edge_cycle", "s_metric",
    "score_sequence", "is_tournament", "union", "disjoint_union", "intersection", "difference",
    "symmetric_difference", "compose", "full_join", "fast_could_be_isomorphic", "faster_could_be_isomorphic", "is_triad",
]


def empty(ctx, call, directed):
    """the graph without nodes is answered or refused like NetworkX does"""
    import networkx as nx

    from graphblas_algorithms import nxapi

    class Shim:
        community, structuralholes, linalg = nx.community, nx.algorithms.structuralholes, nx
        tournament = nx.tournament

        def __getattr__(self, k):
            return getattr(nx, k)

    c = api.CALLS[call]
    g = ctx.graph("A", 0, directed=directed, dtype="INT64")

    class N:
        K = []
        G = nx.DiGraph() if directed else nx.Graph()

    def ask(m, x):
        try:
            r = c.f(m, x, x, api.Args()) if c.second else c.f(m, x, api.Args())
            r = api.materialise(r)
        except Exception as e:
            return type(e).__name__
        if hasattr(r, "_key_to_id") and hasattr(r, "_A") or isinstance(r, nx.Graph):
            return len(r), r.is_directed()
        if isinstance(r, list):
            return "nothing" if not r else r
        return dict(r) if hasattr(r, "items") else set(r) if hasattr(r, "__iter__") else r

    want, got = ask(Shim(), N), ask(nxapi, g)
    want = "nothing" if want in ({}, set(), []) and not isinstance(want, (bool, int, float)) else want
    got = "nothing" if got in ({}, set(), []) and not isinstance(got, (bool, int, float)) else got
    ctx.check(want == got, f"{call} of the empty graph: {got!r}, NetworkX: {want!r}")


BOUNDS = (
    "every graph with two nodes (edges, stored values, labels decided by the solver), unknown nodes of several "
    "types - valid positions that are no labels included; every call restricted to one kind of graph; the empty graph"
)
OUTSIDE = "calls that ignore unknown nodes like NetworkX does (boundaries, cuts, dominating sets); multigraphs; which error is raised"


def instances(tier):
    q = tier == "quick"
    out = []
    for call in UNKNOWN:
        for d in (False, True):
            if "ud"[d] in ONLY.get(call, "ud"):
                for keys in ("str", "perm"):
                    out.append(Inst("unknown", call=call, n=2, directed=d, keys=keys))
                if not q:
                    out.append(Inst("unknown", call=call, n=3, directed=d, keys="str"))
    for call in WRONG_KIND:
        out.append(Inst("kind", call=call, n=2))
    for d in (False, True):
        out.append(Inst("nodelist", call="floyd_warshall_numpy", n=3 if not d else 2, directed=d))
    for call in EMPTY:
        for d in (False, True):
            if "ud"[d] in api.CALLS[call].kinds:
                out.append(Inst("empty", call=call, directed=d))
    return out
