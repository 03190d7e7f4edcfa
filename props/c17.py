"""Eigenvector and Katz centrality: the documented power iterations, step by step."""

from symgb import terms as T
from symgb.ops import sqrt_term

from .c16 import _clear, _dist, _g, _norm, _run, _tol, _values, iterations  # noqa: F401
from .spec import Inst, given


KATZ = {"alpha": 0.1, "beta": 1.0, "tol": "default", "nstart": None, "normalized": True}


def _l2(v):
    s = sqrt_term(T.ssum([T.mul(y, y) for y in v]))
    if T.is_const(s) and s == 0:
        return v
    return [T.div_real(y, s) for y in v]


def _pull(g, x):
    """(x A)[j]"""
    return [
        T.ssum([0.0] + [T.mul(x[i], g.w(i, j)) for i in range(g.n) if g.p(i, j)])
        for j in range(g.n)
    ]


def eigenvector(ctx, n, directed, weight, steps, start=None, tol="sym", keys="perm", dtype="FP64"):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weight, keys, dtype=dtype)
    xd, x = _dist(ctx, g, start, "x")
    xs = [_norm(x)]
    for _ in range(steps):
        y = xs[-1]
        xs.append(_l2([T.add(a, b) for a, b in zip(y, _pull(g, y), strict=True)]))
    t, tol = _tol(ctx, tol, 1e-6)
    _clear(ctx, xs, t, n)
    try:
        got = _values(
            ctx, g,
            nxapi.eigenvector_centrality(g.G, max_iter=steps, **given(KATZ, tol=tol, nstart=xd)),
        )
    except nx.PowerIterationFailedConvergence:
        got = None
    _run(ctx, g, xs, t, got, True, "eigenvector", n)


def katz(
    ctx, n, directed, weight, steps, alpha=0.125, beta=None, start=None, normalized=False,
    tol="sym", keys="perm", dtype="FP64", loops=True,
):
    import networkx as nx

    from graphblas_algorithms import algorithms, nxapi

    g = _g(ctx, n, directed, weight, keys, loops, dtype)
    a = ctx.real("alpha", 0, 1) if alpha == "sym" else alpha
    if beta in ("zeros", "perm"):
        v = [2.0, 0.5, 1.0, 3.0] if beta == "perm" else [2.0, 0.0, 1.0, 5.0]
        b = (v * n)[:n]
        bd = {g.K[i]: b[i] for i in range(n)}
    elif beta == "symdict":
        b = [ctx.real(f"b{i}", 0.25, 2) for i in range(n)]
        bd = {g.K[i]: ctx.pyval(b[i]) for i in range(n)}
    elif beta == "sym":
        b = [ctx.real("b", 0.25, 2)] * n
        bd = ctx.pyval(b[0])
    else:
        b, bd = [1.0] * n, 1.0
    xd, x = _dist(ctx, g, start, "x")
    if start is None:
        x = [0.0] * n
    xs = [x]
    for _ in range(steps):
        xs.append([T.add(T.mul(a, s), y) for s, y in zip(_pull(g, xs[-1]), b, strict=True)])
    t, tol = _tol(ctx, tol, 1e-6)
    _clear(ctx, xs, t, n)
    kw = {"alpha": ctx.pyval(a), "beta": bd, "tol": tol}
    try:
        if beta == "sym":  # nxapi makes it a Python float first
            v = algorithms.katz_centrality(
                g.G, max_iter=steps, **given(KATZ, **kw), normalized=normalized, nstart=g.G.dict_to_vector(xd, dtype=float)
            )
            got = _values(ctx, g, g.G.vector_to_nodemap(v))
        else:
            rv = nxapi.katz_centrality(g.G, max_iter=steps, **given(KATZ, **kw, nstart=xd, normalized=normalized))
            got = _values(ctx, g, rv)
    except (nx.PowerIterationFailedConvergence, algorithms.exceptions.ConvergenceFailure):
        got = None
    final = [xs[0]] + [_l2(y) if normalized else y for y in xs[1:]]
    _run(ctx, g, xs, t, got, True, "katz", n, final)


def katz_beta_missing(ctx, n, directed):
    """a beta that misses a node is rejected"""
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, "one")
    k = ctx.choice("missing", list(range(n)))
    bd = {g.K[i]: 1.0 for i in range(n) if i != k}
    try:
        nxapi.katz_centrality(g.G, beta=bd)
        ctx.fail("katz_centrality accepted a beta that misses a node")
    except nx.NetworkXError:
        pass


BOUNDS = (
    "every directed and undirected graph on 1-3 nodes with self-edges (4 nodes: thorough); weights "
    "1, fixed and different, or one real 1/2..4 or -4..-1/2 (iso-valued); bool, int and float; tolerance any "
    "real in 0..1, 1-3 iterations (all branches of the stopping rule), alpha and beta fixed or any "
    "real, beta per node, permuted labels, several starting vectors"
)
OUTSIDE = (
    "real numbers are exact (floating-point rounding is ignored), larger graphs, more iterations "
    "(the step is the same), starting vectors that miss nodes"
)


def instances(tier):
    q = tier == "quick"
    out = []
    add = lambda *a, **k: out.append(Inst(*a, **k))  # noqa: E731
    for d in (False, True):
        for w in ("one", "fixed"):
            add("eigenvector", n=1, directed=d, weight=w, steps=2)
            add("eigenvector", n=2, directed=d, weight=w, steps=3)
            add("eigenvector", n=3, directed=d, weight=w, steps=1 if d else 3)
            add("eigenvector", n=2, directed=d, weight=w, steps=2, start="zeros")
            add("katz", n=1, directed=d, weight=w, steps=2)
            add("katz", n=3, directed=d, weight=w, steps=2, shards=2 if d else 0)
            add("katz", n=2, directed=d, weight=w, steps=3, normalized=True)
            for b in ("perm", "zeros", "sym", "symdict"):
                add("katz", n=2, directed=d, weight=w, steps=2, beta=b)
                add("katz", n=2, directed=d, weight=w, steps=2, beta=b, start="zeros")
            add("katz", n=2, directed=d, weight=w, steps=2, alpha="sym")
        add("katz", n=2, directed=d, weight="iso", steps=2)
        add("katz", n=2, directed=d, weight="negiso", steps=2)
        add("katz", n=2, directed=d, weight="iso", steps=1, start="zeros")
        add("katz", n=3, directed=d, weight="fixed", steps=1, normalized=True, start="zeros", beta="perm")
        add("katz", n=2, directed=d, weight="real", steps=2, loops=False)
        for dt, w in (("BOOL", "one"), ("INT64", "one"), ("INT64", "fixed")):
            add("eigenvector", n=2 if d else 3, directed=d, weight=w, steps=1, dtype=dt)
            add("katz", n=2 if d else 3, directed=d, weight=w, steps=2, dtype=dt)
        add("katz_beta_missing", n=3, directed=d)
        for start in ("sym", "near"):
            add("katz", n=2, directed=d, weight="one", steps=1, start=start, tol="default", alpha=0.1)
        add("eigenvector", n=2, directed=d, weight="one", steps=1, start="near", tol="default")
        add("katz", n=2, directed=d, weight="fixed", steps=2, alpha=0.1, normalized=True)
    for shape in ("lasso", "back", "path+"):
        for d in (False, True):
            for w in ("one", "fixed"):
                if d or shape != "back":
                    add("eigenvector", n=4, directed=d, weight=w, steps=2 if q else 3, shape=shape)
                    add("katz", n=4, directed=d, weight=w, steps=3, shape=shape, normalized=w == "fixed")
                    add("katz", n=5, directed=d, weight=w, steps=2, beta="zeros", start="zeros", shape=shape)
    add("iterations", call="eigenvector_centrality")
    add("iterations", call="katz_centrality")
    if not q:
        for d in (False, True):
            for w in ("one", "fixed"):
                add("katz", n=3, directed=d, weight=w, steps=3, beta="sym", shards=4)
                add("katz", n=3, directed=d, weight=w, steps=3, alpha="sym", shards=4)
                add("eigenvector", n=3, directed=d, weight=w, steps=4, shards=4)
        add("eigenvector", n=4, directed=False, weight="fixed", steps=2, shards=8)
        add("katz", n=4, directed=False, weight="fixed", steps=2, shards=8)
    return out
