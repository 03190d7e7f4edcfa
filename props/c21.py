"""NetworkX graphs convert to the same graph and back, and calls answer the same for them."""

import inspect

from symgb import terms as T

from . import api
from .spec import Inst

W = {"INT64": ("int", -1, 2), "FP64": ("real", -1, 1), "BOOL": ("bool",)}
NPT = {"INT64": int, "FP64": float, "BOOL": bool}
FEW = ["zero", 1, (2, "x"), None]  # hashable labels of several types (None is replaced)


def _labels(n, keys):
    if keys == "mixed":
        K = ["b", 7, (1, 2), 0][:n]
    else:
        K = [(i + 1) % n for i in range(n)]
    return K


def _nx(ctx, n, directed, dtype, keys="perm", attr="weight", missing=False, loops=True, weight=None):
    """(networkx graph, {(i, j): raw value or None}) with edges decided and values symbolic"""
    import networkx as nx

    K = _labels(n, keys)
    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(K)
    G.graph["who"] = "me"
    val = {}
    for i in range(n):
        for j in range(n) if directed else range(i, n):
            if i == j and not loops:
                continue
            if not ctx.decide(ctx.bool(f"p{i}.{j}")):
                continue
            # an undirected edge may be given from either end
            a, b = (K[i], K[j]) if directed or (i + j) % 2 else (K[j], K[i])
            if missing and ctx.decide(ctx.bool(f"m{i}.{j}")):
                G.add_edge(a, b)
                w = 1
            else:
                w = weight(i, j) if weight is not None else ctx.number(f"w{i}.{j}", *W[dtype])
                G.add_edge(a, b, **{attr: ctx.pyval(w)})
            val[i, j] = w
            if not directed:
                val[j, i] = w
    return G, K, val


def _is(ctx, g, G, K, val, label, exact_dtype=None):
    """the converted graph g has the nodes of G, in that order, and exactly its edges and values"""
    ctx.check(g.is_directed() == G.is_directed(), f"{label}: kind of graph")
    ctx.check(list(g) == list(G), f"{label}: nodes in order")
    ctx.check(g._A.nrows == g._A.ncols == len(K), f"{label}: size")
    kid = dict(g._key_to_id)
    m = ctx.mat(g._A)
    for i, a in enumerate(K):
        for j, b in enumerate(K):
            p, v = m.get((kid[a], kid[b]), (False, None))
            ctx.check(T.b_iff(p, (i, j) in val), f"{label}: edge {a}-{b}")
            if (i, j) in val and p is not False:
                ctx.check(T.eq(_n(v), _n(val[i, j])), f"{label}: value {a}-{b}")
    if exact_dtype is not None:
        ctx.check(g._A.dtype.name == exact_dtype, f"{label}: type")


def _n(v):
    return T.to_int(v) if T.kind_of(v) == "b" else v


def from_nx(ctx, n, directed, dtype, keys, missing, ask):
    """from_networkx keeps nodes, order, edges and the asked-for edge attribute (1 where missing)"""
    import graphblas_algorithms as ga

    G, K, val = _nx(ctx, n, directed, dtype, keys, missing=missing, loops=True)
    cls = ga.DiGraph if directed else ga.Graph
    before = {(u, v): dict(d) for u, v, d in G.edges(data=True)}
    if ask == "weight":
        g = cls.from_networkx(G, weight="weight")
    elif ask == "float":
        g = cls.from_networkx(G, weight="weight", dtype=float)
        ctx.check(g._A.dtype.name == "FP64", "the asked-for type")
    elif ask == "bool":
        g = cls.from_networkx(G, weight="weight", dtype=bool)
        ctx.check(g._A.dtype.name == "BOOL", "the asked-for type")
        val = {k: T.ne(v, 0) if T.kind_of(v) != "b" else v for k, v in val.items()}
    elif ask == "other":
        g = cls.from_networkx(G, weight="cost")
        val = dict.fromkeys(val, 1)
    else:
        g = cls.from_networkx(G)
        val = dict.fromkeys(val, 1)
    _is(ctx, g, G, K, val, "from_networkx")
    ctx.check({(u, v): set(d) for u, v, d in G.edges(data=True)} == {k: set(d) for k, d in before.items()}, "the NetworkX graph is unchanged")


def dispatch(ctx, n, directed, ask):
    """the backend's conversion of arguments and of results"""
    from graphblas_algorithms.interface import Dispatcher as D

    attr = "cost" if ask in ("preserve", "edge_attrs_cost") else "weight"
    dtype = "INT64"
    if ask in ("plain", "graph_attrs"):
        G, K, val = _nx(ctx, n, directed, dtype, weight=lambda i, j: 2 + i)
    else:
        G, K, val = _nx(ctx, n, directed, dtype, attr=attr, missing=True)
    if ask == "plain":
        g = D.convert_from_nx(G)
        val = dict.fromkeys(val, 1)
    elif ask == "weight":
        g = D.convert_from_nx(G, weight="weight")
    elif ask == "edge_attrs":
        g = D.convert_from_nx(G, edge_attrs={"weight": 1})
    elif ask == "edge_attrs_cost":
        g = D.convert_from_nx(G, edge_attrs={"cost": None}, preserve_graph_attrs=True)
    elif ask == "preserve":
        g = D.convert_from_nx(G, preserve_edge_attrs=True)
    elif ask == "graph_attrs":
        g = D.convert_from_nx(G, preserve_graph_attrs=True)
        ctx.check(dict(g.graph) == {"who": "me"}, "graph attributes")
        val = dict.fromkeys(val, 1)
    _is(ctx, g, G, K, val, f"convert_from_nx({ask})")
    back = D.convert_to_nx(g)
    _isnx(ctx, back, directed, K, val, "convert_to_nx", "weight")


def refused(ctx):
    """conversions that would lose something are refused"""
    import networkx as nx

    from graphblas_algorithms.interface import Dispatcher as D

    what = ctx.choice("what", ["two", "default", "node", "nodes", "both"])
    G = nx.Graph()
    G.add_edge("a", "b", weight=3, cost=2)
    G.add_node("c", color="red")
    kw = {
        "two": {"edge_attrs": {"weight": 1, "cost": 1}},
        "default": {"edge_attrs": {"weight": 5}},
        "node": {"node_attrs": {"color": None}},
        "nodes": {"preserve_edge_attrs": True},
        "both": {"edge_attrs": {"weight": 1}, "weight": "cost"},
    }[what]
    try:
        D.convert_from_nx(G, **kw)
        got = None
    except (NotImplementedError, TypeError) as e:
        got = type(e)
    ctx.check(got is (TypeError if what == "both" else NotImplementedError), f"{what} refused")


def _isnx(ctx, H, directed, K, val, label, attr):
    """the NetworkX graph H has exactly these nodes, edges and values"""
    ctx.check(H.is_directed() == directed and not H.is_multigraph(), f"{label}: kind of graph")
    ctx.check(list(H) == list(K), f"{label}: nodes in order")
    for i, a in enumerate(K):
        for j, b in enumerate(K):
            has = H.has_edge(a, b)
            p, w = val.get((i, j), (False, None)) if isinstance(val.get((i, j)), tuple) else (((i, j) in val), val.get((i, j)))
            ctx.check(T.b_iff(has, p), f"{label}: edge {a}-{b}")
            if has and p is not False and attr is not None:
                ctx.check(attr in H.edges[a, b], f"{label}: attribute of {a}-{b}")
                if attr in H.edges[a, b]:
                    ctx.check(T.b_or(T.b_not(p), T.eq(_n(ctx.num(H.edges[a, b][attr])), _n(w))), f"{label}: value {a}-{b}")
            elif has and attr is None:
                ctx.check(not H.edges[a, b], f"{label}: no attribute on {a}-{b}")
    ctx.check(H.number_of_edges() == len(list(H.edges())), f"{label}: edges")


def to_nx(ctx, n, directed, dtype, attr, keys="perm"):
    """to_networkx gives every edge once with its stored value"""
    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=W[dtype], keys=keys, iso=None)
    H = g.G.to_networkx() if attr == "weight" else g.G.to_networkx(edge_attribute=attr)
    val = {(i, j): (g.p(i, j), g.w(i, j)) for i in range(n) for j in range(n)}
    order = list(g.G)
    ctx.check(list(H) == order, "to_networkx: nodes in order")
    K = g.K
    ctx.check(sorted(map(str, H)) == sorted(map(str, K)), "to_networkx: nodes")
    H2 = H.copy()
    G2 = type(H2)()
    G2.add_nodes_from(K)
    G2.add_edges_from(H2.edges(data=True))
    _isnx(ctx, G2, directed, K, val, "to_networkx", attr)


def _attribute(name):
    """the parameter of NetworkX's function that names the edge attribute, or None"""
    import networkx as nx

    f = getattr(nx, name, None) or getattr(nx.algorithms.structuralholes, name, None)
    for p in inspect.signature(f).parameters.values() if f is not None else ():
        if p.name == "weight" or (p.name == "distance" and name == "ego_graph"):
            return p
    return None


class _Module:
    """nxapi, told which attribute to read: "as is" (what the call says), "omit" (nothing) or its name"""

    def __init__(self, mod, attr="as is", spy=None):
        self.mod, self.attr, self.spy = mod, attr, spy

    def __getattr__(self, k):
        x = getattr(self.mod, k)
        if inspect.ismodule(x):
            return _Module(x, self.attr, self.spy)
        p = _attribute(k)

        def f(*a, **kw):
            if p is not None and self.attr != "as is":
                kw.pop(p.name, None)
                if self.attr != "omit":
                    kw[p.name] = self.attr
            if self.spy is None:
                return x(*a, **kw)
            self.spy.append((k, p, kw))
            raise LookupError

        return f


def _reads(name, attr):
    """(can the attribute be chosen in this call, does the call name it, the attribute that is read)"""
    from graphblas_algorithms import nxapi

    c = api.CALLS[name]
    spy = []
    mod = _Module(nxapi, attr, spy)

    class G:
        K = ["a", "b", "c"]
        G = ()

    try:
        c.f(mod, G, G, api.Args()) if c.second else c.f(mod, G, api.Args())
    except LookupError:
        pass
    ((k, p, kw),) = spy
    if p is None:
        return False, False, "weight" if k == "hits" else None
    return True, p.name in kw, kw.get(p.name, p.default)  # NetworkX's default


SKIP = {"to_undirected", "to_undirected_r"}  # methods of the library's own graphs


def calls(ctx, call, n, directed, attr="as is"):
    """a call answers for a NetworkX graph as for the graph it converts to"""
    import copy

    from graphblas_algorithms import nxapi

    c = api.CALLS[call]
    dtype = "FP64" if c.w == "w18" else "INT64"
    read = _reads(call, attr)[2]
    weighted = read is not None
    mod = _Module(nxapi, attr)
    kind = api.WEIGHTS[c.w]
    num = (lambda i, j: 1 + (2 * i + 3 * j) % 4) if c.w == "one" else None
    gs = []
    for name in ("A", "B") if c.second else ("A",):
        K = [(i + 1) % n for i in range(n)] if name == "A" or call not in ("union", "full_join") else ["y", "x", "z"][:n]
        import networkx as nx

        G = nx.DiGraph() if directed else nx.Graph()
        G.add_nodes_from(K)
        P, V = {}, {}
        for i in range(n):
            for j in range(n) if directed else range(i, n):
                p = ctx.decide(ctx.bool(f"{name}.p{i}.{j}"))
                w = 0
                if p:
                    w = num(i, j) if num else ctx.number(f"{name}.w{i}.{j}", *kind)
                    G.add_edge(K[i], K[j], **{read or "weight": ctx.pyval(w), "weight" if read == "other" else "other": 5})
                P[i, j], V[i, j] = p, w if weighted else 1
                if not directed:
                    P[j, i], V[j, i] = P[i, j], V[i, j]
        g = ctx.graph(name + "_", n, directed=directed, dtype=dtype if weighted else "INT64",
                      weight=lambda i, j, V=V: V[i, j], present=lambda i, j, P=P: P[i, j],
                      keys=(K, range(n)), iso=None)
        h = copy.copy(g)
        h.G = G
        gs.append((g, h))
    a = [x[0] for x in gs] + [None]
    b = [x[1] for x in gs] + [None]
    want, _ = api.run(ctx, call, a[0], a[1], nxapi=mod)
    got, _ = api.run(ctx, call, b[0], b[1], nxapi=mod)
    api.same(ctx, got, want, f"{call} of a NetworkX graph")
    for h in b:
        if h is not None:
            ctx.check(all(set(d) == {"weight", "other"} for _, _, d in h.G.edges(data=True)), "the NetworkX graph is unchanged")


MATRICES = {
    "adjacency_matrix": "ud", "laplacian_matrix": "u", "bethe_hessian_matrix": "u",
    "floyd_warshall_numpy": "ud", "google_matrix": "ud", "modularity_matrix": "u",
    "directed_modularity_matrix": "d", "tournament_matrix": "d", "normalized_laplacian_matrix": "u",
}


def matrices(ctx, name, n, directed):
    """matrix results reach NetworkX with the value every missing entry stands for"""
    from graphblas_algorithms.interface import Dispatcher as D

    g = ctx.graph("A", n, directed=directed, dtype="INT64", weight=lambda i, j: 1 + (i + j) % 2,
                  present=lambda i, j: ctx.decide(ctx.bool(f"A.p{i}.{j}")), keys="perm", iso=None)
    try:
        M = getattr(D, name)(g.G)
    except api.documented(ctx):
        return
    m = ctx.mat(M)
    m = {k: pv for k, pv in m.items() if ctx.decide(pv[0])}
    R = D.convert_to_nx(M, name=name)
    dense = R if hasattr(R, "__array__") and not hasattr(R, "toarray") else R.toarray()
    ctx.check(dense.shape == (n, n), "shape")
    missing = float("inf") if name == "floyd_warshall_numpy" else 0
    for i in range(n):
        for j in range(n):
            w = m[i, j][1] if (i, j) in m else missing
            ctx.check_close(ctx.num(dense[i, j]), w, f"{name}[{i},{j}]", 1e-9)


def dicts(ctx, n, m, dtype, iso, transposed):
    """matrix_to_dicts: {row: {column: value}}"""
    g = ctx.graph("A", n, directed=True, dtype=dtype, weight="isoint" and ("isoint", 1, 2) if iso else W[dtype], keys="str", iso=True if iso else None)
    A = g.G._A.T if transposed else g.G._A
    rowi = ctx.choice("use_row_index", [False, True])
    coli = ctx.choice("use_column_index", [False, True])
    got = g.G.matrix_to_dicts(A, use_row_index=rowi, use_column_index=coli)
    for i in range(n):
        a = i if rowi else g.K[i]
        cells = {j: ((g.p(j, i), g.w(j, i)) if transposed else (g.p(i, j), g.w(i, j))) for j in range(n)}
        ctx.check(T.b_iff(a in got, T.b_or(*[p for p, _ in cells.values()])), f"row {a}")
        row = got.get(a, {})
        for j in range(n):
            b = j if coli else g.K[j]
            p, w = cells[j]
            ctx.check(T.b_iff(b in row, p), f"[{a}][{b}]: presence")
            if b in row and p is not False:
                ctx.check(T.b_or(T.b_not(p), T.eq(_n(ctx.num(row[b])), _n(w))), f"[{a}][{b}]: value")
        ctx.check(len(row) <= n, f"row {a}: nothing else")
    ctx.check(len(got) <= n, "nothing else")


BOUNDS = (
    "NetworkX graphs with two (undirected three; thorough three) nodes with labels of several types, self-edges, "
    "integer/float/boolean values or none; every call of the catalog on two-node graphs; matrix results on three nodes"
)
OUTSIDE = "multigraphs (values of parallel edges are summed by SciPy), attributes of nodes, graphs with several attributes to be kept"


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        n = 2 if d else 3
        for dtype in ("INT64", "FP64", "BOOL"):
            for ask in ("weight", "float", "bool", "other", "none"):
                if not (dtype == "BOOL" and ask == "float"):
                    out.append(Inst("from_nx", n=2, directed=d, dtype=dtype, keys="mixed", missing=ask == "weight" and dtype != "BOOL", ask=ask))
            for attr in ("weight", "cost", None):
                out.append(Inst("to_nx", n=n, directed=d, dtype=dtype, attr=attr, keys="str" if attr else "perm"))
        out.append(Inst("from_nx", n=3 if not q or not d else 2, directed=d, dtype="INT64", keys="perm", missing=False, ask="weight"))
        for ask in ("plain", "weight", "edge_attrs", "edge_attrs_cost", "preserve", "graph_attrs"):
            out.append(Inst("dispatch", n=2, directed=d, ask=ask))
        for name, kinds in MATRICES.items():
            if "ud"[d] in kinds:
                out.append(Inst("matrices", name=name, n=n, directed=d))
        for call, c in api.CALLS.items():
            if "ud"[d] in c.kinds and call not in SKIP:
                out.append(Inst("calls", call=call, n=2, directed=d))
                some, named, _ = _reads(call, "as is")
                if some:
                    for attr in ("other", None, "omit") if named else ("other", None):
                        if attr == "other" and not named and call.startswith("ego_graph"):
                            continue  # lengths may be negative there
                        out.append(Inst("calls", call=call, n=2, directed=d, attr=attr))
                if not q and not d and not c.second and c.cap > 2:
                    out.append(Inst("calls", call=call, n=3, directed=d))
    out.append(Inst("refused"))
    for t in (False, True):
        out.append(Inst("dicts", n=2, m=2, dtype="INT64", iso=False, transposed=t))
        out.append(Inst("dicts", n=2, m=2, dtype="INT64", iso=True, transposed=t))
        out.append(Inst("dicts", n=3 if not q else 2, m=2, dtype="FP64", iso=False, transposed=t))
    return out
