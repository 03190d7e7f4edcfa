"""Edge and node boundaries, cuts, expansions, community edge counts."""

from symgb import terms as T

from .spec import Inst, count, given, opt

ONE = {"INT64": 1, "FP64": 1.0, "BOOL": True}


def _g(ctx, n, directed, weighted=False, dtype="INT64", loops=True):
    # without a weight argument the stored values must not matter
    w = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}[dtype]
    return ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, loops=loops)


def _subset(ctx, name, n, within=None):
    if n > 50:
        pick = ctx.choice(name, [[0], range(1, n), range(n - 1)])
        return [i for i in pick if within is None or i in within]
    return [i for i in (range(n) if within is None else within) if ctx.decide(ctx.bool(f"{name}{i}"))]


def _sets(ctx, g, n, t, S=None):
    """S, T (ids; T disjoint from S) and T as passed (keys or None)"""
    S = _subset(ctx, "S", n) if S is None else list(S)
    rest = [i for i in range(n) if i not in S]
    Tn = rest if t is None else _subset(ctx, "T", n, rest)
    return S, Tn, None if t is None else [g.K[i] for i in Tn]


EXTRA = ["not a node"]


def _w(g, i, j, weighted):
    return T.to_num(g.w(i, j)) if weighted else 1


def _cut(g, S, Tn, weighted):
    r = 0
    for i in S:
        for j in Tn:
            r = T.add(r, T.if_(g.p(i, j), _w(g, i, j, weighted), 0))
            if g.directed:
                r = T.add(r, T.if_(g.p(j, i), _w(g, j, i, weighted), 0))
    return r


def _vol(g, S, weighted):
    r = 0
    for i in S:
        for j in range(g.n):
            if (i, j) in g.P:
                r = T.add(r, T.if_(g.p(i, j), _w(g, i, j, weighted), 0))
    return r


def edge_boundary(ctx, n, directed, t, data, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, data is not False, dtype)
    S, Tn, Tk = _sets(ctx, g, n, t)
    got = list(nxapi.edge_boundary(g.G, [g.K[i] for i in S] + EXTRA, *opt(Tk), **given({"data": False}, data=data)))
    pairs = {}
    for e in got:
        k = (g.ids[e[0]], g.ids[e[1]])
        ctx.check(k not in pairs, f"edge {k} only once")
        ctx.check(len(e) == (2 if data is False else 3), "length of an item")
        pairs[k] = e
    for i in range(n):
        for j in range(n):
            want = g.p(i, j) if i in S and j in Tn else False
            ctx.check(T.b_iff((i, j) in pairs, want), f"edge {g.K[i]}-{g.K[j]} in the boundary")
            if (i, j) in pairs and data is not False:
                d = pairs[i, j][2]
                if data is True:
                    ctx.check(set(d) == {"weight"}, "edge data")
                    d = d["weight"]
                ctx.check(T.eq(ctx.num(d), g.w(i, j)), f"weight of {g.K[i]}-{g.K[j]}")


def node_boundary(ctx, n, directed, t, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype=dtype)
    S = _subset(ctx, "S", n)
    Tn = range(n) if t is None else _subset(ctx, "T", n)  # may overlap S
    Tk = None if t is None else [g.K[i] for i in Tn] + EXTRA
    got = ctx.as_set(nxapi.node_boundary(g.G, [g.K[i] for i in S] + EXTRA, *opt(Tk)))
    want = {}
    for j in range(n):
        want[g.K[j]] = (
            T.b_or(*[g.p(i, j) for i in S]) if j in Tn and j not in S and S else False
        )
    ctx.check_set(got, want, "node boundary")


def cut_size(ctx, n, directed, t, weighted, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weighted, dtype)
    S, Tn, Tk = _sets(ctx, g, n, t)
    kw = {"weight": "weight"} if weighted else {}
    rv = nxapi.cut_size(g.G, [g.K[i] for i in S], *opt(Tk), **kw)
    ctx.check_close(ctx.num(rv), _cut(g, S, Tn, weighted), "cut size")


def volume(ctx, n, directed, weighted, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weighted, dtype, loops=directed)
    S = _subset(ctx, "S", n)
    if not S:
        return
    kw = {"weight": "weight"} if weighted else {}
    rv = nxapi.volume(g.G, [g.K[i] for i in S], **kw)
    ctx.check_close(ctx.num(rv), _vol(g, S, weighted), "volume")


def ratio(ctx, n, directed, t, weighted, what, S=None):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weighted, loops=directed)
    S, Tn, Tk = _sets(ctx, g, n, t, S)
    kw = {"weight": "weight"} if weighted else {}
    cut = _cut(g, S, Tn, weighted)
    if what in ("normalized_cut_size", "conductance"):
        a, b = _vol(g, S, weighted), _vol(g, Tn, weighted)
    elif what == "edge_expansion":
        a = b = min(len(S), len(Tn))
    else:
        m = count([p for k, p in g.P.items() if directed or k[0] <= k[1]])
        a = b = T.mul(m, 2)
    za, zb = T.eq(a, 0), T.eq(b, 0)
    try:
        rv = getattr(nxapi, what)(g.G, [g.K[i] for i in S], *opt(Tk), **kw)
    except ZeroDivisionError:
        ctx.check(T.b_or(za, zb), f"{what}: ZeroDivisionError")
        return
    ctx.check(T.b_not(T.b_or(za, zb)), f"{what}: must raise ZeroDivisionError")
    rv = T.to_real(ctx.num(rv))
    # the divisors are decided first: the comparison is linear then
    a, b = ctx.value(a), ctx.value(b)
    if a == 0 or b == 0:
        return
    c = T.to_real(cut)
    if what == "normalized_cut_size":
        want = T.mul(c, 1 / a + 1 / b)
    else:
        want = T.div_real(c, float(min(a, b)))
    ctx.check_close(rv, want, what)


def expansion(ctx, n, directed, what):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed)
    S = _subset(ctx, "S", n)
    if not S:
        return
    rv = getattr(nxapi, what)(g.G, [g.K[i] for i in S])
    nb = [
        T.b_or(*[g.p(i, j) for i in S]) if what == "node_expansion" or j not in S else False
        for j in range(n)
    ]
    ctx.check_close(ctx.num(rv), T.div_real(T.to_real(count(nb)), float(len(S))), what)


def _partitions(n):
    """restricted growth strings"""
    out = [[0]]
    for _ in range(n - 1):
        out = [[*p, b] for p in out for b in range(max(p) + 2)]
    return out


def community(ctx, n, directed, what, dtype="INT64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, dtype=dtype)
    part = ctx.choice("partition", _partitions(n))
    blocks = [{g.K[i] for i in range(n) if part[i] == b} for b in range(max(part) + 1)]
    if dtype == "INT64":
        blocks[0].add("nowhere")  # labels that are not nodes count for nothing
    rv = getattr(nxapi.community.quality, what)(g.G, blocks)
    intra = what == "intra_community_edges"
    want = count(
        [
            p
            for (i, j), p in g.P.items()
            if (directed or i <= j) and (part[i] == part[j]) == intra
        ]
    )
    ctx.check(T.eq(ctx.num(rv), want), what)


RATIOS = ("normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion")
BOUNDS = (
    "every undirected graph on 3-4 (thorough 5) and directed graph on 3 (thorough 4) nodes, "
    "self-edges included (not for volumes of undirected graphs), every node set S and disjoint "
    "set T (or T omitted), labels that are not nodes, stored weights 0..2 (bool, int, float "
    "matrices), weighted or not; community edge counts for every partition of the nodes"
)
OUTSIDE = (
    "overlapping S and T (except for node boundaries), multigraphs, volumes of undirected graphs "
    "with self-edges"
)


def _sets_of(n):
    """all subsets, as tuples; [None] (the set is symbolic) for n = 0"""
    if not n:
        return [None]
    return [tuple(i for i in range(n) if b >> i & 1) for b in range(2**n)]


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        n = 3 if d else 4
        for t in (None, "T"):
            for data in (False, True, "weight"):
                out.append(Inst("edge_boundary", n=3, directed=d, t=t, data=data))
            out.append(Inst("node_boundary", n=n, directed=d, t=t))
            for w in (False, True):
                if not (d and t is None):  # networkx has no default either
                    out.append(Inst("cut_size", n=n, directed=d, t=t, weighted=w))
                for r in RATIOS:
                    if not (d and t is None and r == "mixing_expansion"):
                        for S in _sets_of(n if d else 0):
                            out.append(
                                Inst("ratio", n=3, directed=d, t=t, weighted=w, what=r, S=S)
                            )
        for w in (False, True):
            out.append(Inst("volume", n=n, directed=d, weighted=w))
        for what in ("node_expansion", "boundary_expansion"):
            out.append(Inst("expansion", n=n, directed=d, what=what))
        for what in ("intra_community_edges", "inter_community_edges"):
            out.append(Inst("community", n=n, directed=d, what=what))
    for dt in ("FP64", "BOOL"):
        out.append(Inst("edge_boundary", n=3, directed=True, t=None, data=False, dtype=dt))
        out.append(Inst("node_boundary", n=3, directed=True, t=None, dtype=dt))
        out.append(Inst("volume", n=3, directed=True, weighted=dt == "FP64", dtype=dt))
        out.append(Inst("cut_size", n=3, directed=False, t=None, weighted=dt == "FP64", dtype=dt))
        out.append(Inst("community", n=3, directed=True, what="intra_community_edges", dtype=dt))
    for shape in ("grid", "lasso~", "wheel+"):
        n = 5 if q else 6
        for d in (False, True):
            out.append(Inst("node_boundary", n=n, directed=d, t="T", shape=shape))
            out.append(Inst("cut_size", n=n, directed=d, t="T", weighted=not d, shape=shape))
            out.append(Inst("volume", n=n, directed=d, weighted=d, shape=shape))
            out.append(Inst("edge_boundary", n=n - 1, directed=d, t="T", data="weight", shape=shape))
            for what in ("node_expansion", "boundary_expansion"):
                out.append(Inst("expansion", n=n, directed=d, what=what, shape=shape))
            for what in ("intra_community_edges", "inter_community_edges"):
                out.append(Inst("community", n=n, directed=d, what=what, shape=shape))
            for r in RATIOS if "+" not in shape else ():
                for S in ([0], [1, 3]):
                    out.append(Inst("ratio", n=n, directed=d, t="T", weighted=d, what=r, S=S, shape=shape))
    for d in (False, True):
        n = 132 if q else 264
        for t in (None, "T"):
            out.append(Inst("node_boundary", n=n, directed=d, t=t, shape="Star"))
            out.append(Inst("edge_boundary", n=n, directed=d, t=t, data=False, shape="Star"))
            out.append(Inst("cut_size", n=n, directed=d, t=t, weighted=t is None, shape="Star"))
        for w in (False, True):
            out.append(Inst("volume", n=n, directed=d, weighted=w, dtype="INT64" if w else "BOOL", shape="Star"))
    if not q:
        for d in (False, True):
            n = 4 if d else 5
            for t in (None, "T"):
                out.append(Inst("edge_boundary", n=4, directed=d, t=t, data="weight", shards=5))
                out.append(Inst("node_boundary", n=n, directed=d, t=t, shards=3))
                for w in (False, True):
                    out.append(Inst("cut_size", n=n, directed=d, t="T", weighted=w, shards=3))
            for w in (False, True):
                out.append(Inst("volume", n=n, directed=d, weighted=w, shards=2))
            for r in RATIOS:
                for S in _sets_of(4):
                    for w in (False, True):
                        out.append(
                            Inst("ratio", n=4, directed=d, t="T", weighted=w, what=r, S=S)
                        )
            for what in ("intra_community_edges", "inter_community_edges"):
                out.append(Inst("community", n=n, directed=d, what=what, shards=2))
    return out
