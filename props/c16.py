"""PageRank, Google matrix, HITS: the documented power iterations, step by step."""

import re

from symgb import terms as T

from .spec import Inst, given


def _g(ctx, n, directed, weight, keys="perm", loops=True, dtype="FP64"):
    """the edges are decided one by one, weights stay symbolic unless weight is 'fixed'"""
    if weight == "fixed":
        num = float if dtype == "FP64" else int
        w = lambda i, j: num(1 + (2 * i + 3 * j) % 4)  # noqa: E731
    elif weight == "real":
        w = ("real", 0.5, 4)
    elif weight == "iso":
        w = ("isoreal", 0.5, 4)
    elif weight == "negiso":
        w = ("isoreal", -4, -0.5)
    else:
        w = "one"
    present = lambda i, j: ctx.decide(ctx.bool(f"A.p{i}.{j}"))  # noqa: E731
    # an iso-valued matrix of several edges is only possible with equal weights
    iso = {"one": True, "iso": True, "negiso": True, "fixed": None, "real": None}[weight]
    return ctx.graph(
        "A", n, directed=directed, dtype=dtype, weight=w, keys=keys, loops=loops,
        present=present, iso=iso,
    )


def _dist(ctx, g, kind, name):
    """(dict for the library or None, raw list) of a weight per node"""
    n = g.n
    if kind is None:
        return None, [1.0] * n
    if kind == "sym":
        v = [ctx.real(f"{name}{i}", 0.25, 1) for i in range(n)]
    elif kind == "near":  # close to having one node only
        v = ([1.0, ctx.choice(f"{name}.near", [0.0, 0.4e-8, 0.9e-8, 3e-8, 0.8e-6, 3e-6, 1e-3])] + [0.0] * n)[:n]
    elif kind == "some":
        v = [float(x) for x in ([0, 3, 1, 2] * n)[:n]]
        return {g.K[i]: v[i] for i in range(n) if v[i]}, v
    else:  # explicit zeros
        v = [float(x) for x in ([2, 0, 1, 5] * n)[:n]]
    return {g.K[i]: ctx.pyval(v[i]) for i in range(n)}, v


def _norm(v):
    s = T.ssum(v)
    return [T.div_real(x, s) for x in v]


def _out(g, i):
    return [j for j in range(g.n) if g.p(i, j)]


def _step(g, x, alpha, p, dw):
    n = g.n
    rs = [T.ssum([g.w(i, j) for j in _out(g, i)]) if _out(g, i) else None for i in range(n)]
    lost = T.ssum([x[i] for i in range(n) if rs[i] is None])
    out = []
    for j in range(n):
        s = T.mul(lost, dw[j])
        for i in range(n):
            if g.p(i, j):
                s = T.add(s, T.mul(x[i], T.div_real(g.w(i, j), rs[i])))
        out.append(T.add(T.mul(alpha, s), T.mul(T.sub(1, alpha), p[j])))
    return out


def _err(x, y):
    return T.ssum([T.abs_(T.sub(a, b)) for a, b in zip(x, y, strict=True)])


PAGERANK = {"alpha": 0.85, "personalization": None, "dangling": None, "nstart": None, "nodelist": None, "tol": "default"}
HITS = {"nstart": None, "normalized": True, "tol": "default"}


def _tol(ctx, tol, default):
    """(the tolerance, what is passed for it)"""
    if tol == "default":
        return default, tol
    t = ctx.real("tol", 0, 1) if tol == "sym" else tol
    return t, ctx.pyval(t)


def _clear(ctx, xs, tol, scale):
    """no iterate is closer to the tolerance than rounding errors may be"""
    margin = 1e-6 if ctx.exact else 1e-7
    if T.is_const(tol) and 0 < tol <= 1e-6:
        margin = tol / (10 if ctx.exact else 20)
    for k in range(1, len(xs)):
        e = T.sub(_err(xs[k - 1], xs[k]), T.mul(tol, scale))
        ctx.assume(T.b_or(T.le(margin, e), T.le(e, -margin)))


def _run(ctx, g, xs, tol, got, failed, label, scale, final=None):
    """xs: iterates x0, x1, ..; the first k with |x_k - x_(k-1)|_1 < scale * tol is the answer"""
    earlier = True  # no earlier iterate has converged
    for k in range(1, len(xs)):
        conv = T.lt(_err(xs[k - 1], xs[k]), T.mul(tol, scale))
        here = T.b_and(earlier, conv)
        earlier = T.b_and(earlier, T.b_not(conv))
        if got is None:
            continue
        for i in range(g.n):
            ctx.check_close(got[i], (final or xs)[k][i], f"{label}[{i}] after {k} steps", given=here)
    if got is None:
        ctx.check(earlier, f"{label}: failed to converge although an iterate converged")
    else:
        ctx.check(T.b_not(earlier), f"{label}: returned although no iterate converged")


def _values(ctx, g, rv):
    m = ctx.as_map(rv)
    out = []
    for k in g.K:
        p, v = m.get(k, (False, None))
        ctx.check(p, f"a value for {k}")
        out.append(0.0 if p is False else v)
    return out


def pagerank(
    ctx, n, directed, weight, steps, alpha=0.85, pers=None, dangling=None, start=None, tol="sym",
    keys="perm", loops=True, dtype="FP64",
):
    import networkx as nx

    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weight, keys, loops, dtype)
    a = ctx.real("alpha", 0, 1) if alpha == "sym" else alpha
    pd, p = _dist(ctx, g, pers, "p")
    dd, dw = _dist(ctx, g, dangling, "d")
    xd, x = _dist(ctx, g, start, "x")
    p = _norm(p)
    dw = p if dangling is None else _norm(dw)
    xs = [_norm(x)]
    for _ in range(steps):
        xs.append(_step(g, xs[-1], a, p, dw))
    t, tol = _tol(ctx, tol, 1e-6)
    _clear(ctx, xs, t, n)
    kw = given(PAGERANK, alpha=ctx.pyval(a), personalization=pd, dangling=dd, nstart=xd, tol=tol)
    try:
        rv = nxapi.pagerank(g.G, max_iter=steps, **kw)
        got = _values(ctx, g, rv)
    except nx.PowerIterationFailedConvergence:
        got = None
    _run(ctx, g, xs, t, got, True, "pagerank", n)


def google(ctx, n, directed, weight, alpha=0.85, pers=None, dangling=None, nodelist=None, keys="perm",
           dtype="FP64"):
    from graphblas_algorithms import nxapi

    g = _g(ctx, n, directed, weight, keys, dtype=dtype)
    a = ctx.real("alpha", 0, 1) if alpha == "sym" else alpha
    pd, p = _dist(ctx, g, pers, "p")
    dd, dw = _dist(ctx, g, dangling, "d")
    ids = list(range(n)) if nodelist is None else nodelist
    p = _norm([p[i] for i in ids])
    dw = p if dangling is None else _norm([dw[i] for i in ids])
    M = ctx.mat(
        nxapi.google_matrix(
            g.G, **given(
                PAGERANK, alpha=ctx.pyval(a), personalization=pd, dangling=dd,
                nodelist=None if nodelist is None else [g.K[i] for i in ids],
            )
        )
    )
    for r, i in enumerate(ids):
        out = [j for j in ids if g.p(i, j)]
        rs = T.ssum([g.w(i, j) for j in out]) if out else None
        for c, j in enumerate(ids):
            if rs is None:
                s = dw[c]
            else:
                s = T.div_real(g.w(i, j), rs) if g.p(i, j) else 0.0
            want = T.add(T.mul(a, s), T.mul(T.sub(1, a), p[c]))
            q, v = M.get((r, c), (False, 0.0))
            v = 0.0 if q is False else T.if_(q, v, 0.0)
            ctx.check_close(v, want, f"google matrix [{r},{c}]")


def hits(ctx, n, directed, weight, steps, start=None, normalized=True, authority=False, tol="sym",
         keys="perm", dtype="FP64"):
    import networkx as nx

    from graphblas_algorithms import algorithms, nxapi

    g = _g(ctx, n, directed, weight, keys, dtype=dtype)
    xd, x = _dist(ctx, g, start, "x")
    t, tol = _tol(ctx, tol, 1e-8)

    def scaled(v, how):
        s = T.ssum(v) if how == "L1" else _max(v)
        return v if T.is_const(s) and s == 0 else [T.div_real(y, s) for y in v]

    xs = [_norm(x)]
    others = [None]
    for _ in range(steps):
        y = xs[-1]
        if authority:  # iterate on the authorities
            hub = [T.ssum([T.mul(g.w(i, j), y[j]) for j in _out(g, i)]) for i in range(n)]
            z = [
                T.ssum([T.mul(g.w(i, j), hub[i]) for i in range(n) if g.p(i, j)]) for j in range(n)
            ]
            z = scaled(z, "max")
            others.append(
                [T.ssum([T.mul(g.w(i, j), z[j]) for j in _out(g, i)]) for i in range(n)]
            )
        else:
            o = [T.ssum([T.mul(g.w(i, j), y[i]) for i in range(n) if g.p(i, j)]) for j in range(n)]
            z = [T.ssum([T.mul(g.w(i, j), o[j]) for j in _out(g, i)]) for i in range(n)]
            z = scaled(z, "max")
            others.append(o)
        xs.append(z)
    _clear(ctx, xs, t, n)
    try:
        if authority:
            v = g.G.dict_to_vector(xd, dtype=float)
            h, a = algorithms.hits(
                g.G, max_iter=steps, **given(HITS, tol=tol, nstart=v, normalized=normalized),
                with_authority=True,
            )
            h, a = (g.G.vector_to_nodemap(y, fill_value=0) for y in (h, a))
        else:
            h, a = nxapi.hits(g.G, max_iter=steps, **given(HITS, tol=tol, nstart=xd, normalized=normalized))
        h, a = _values(ctx, g, h), _values(ctx, g, a)
    except (nx.PowerIterationFailedConvergence, nx.NetworkXError, algorithms.exceptions.ConvergenceFailure):
        h = a = None
    except Exception as e:  # scipy's ArpackNoConvergence
        if type(e).__name__ != "ArpackNoConvergence":
            raise
        h = a = None
    how = "L1" if normalized else "max"
    main, side = (a, h) if authority else (h, a)
    final = [scaled(y, how) for y in xs[1:]]
    side_final = [scaled(y, how) for y in others[1:]]
    earlier = True
    for k in range(1, steps + 1):
        conv = T.lt(_err(xs[k - 1], xs[k]), T.mul(t, n))
        here = T.b_and(earlier, conv)
        earlier = T.b_and(earlier, T.b_not(conv))
        if main is None:
            continue
        for i in range(n):
            ctx.check_close(main[i], final[k - 1][i], f"hits[{i}] after {k} steps", given=here)
            ctx.check_close(side[i], side_final[k - 1][i], f"hits, other[{i}]", given=here)
    if main is None:
        ctx.check(earlier, "hits: failed to converge although an iterate converged")
    else:
        ctx.check(T.b_not(earlier), "hits: returned although no iterate converged")


def iterations(ctx, call):
    """how many iterations are made by default: a run that never converges says so"""
    from graphblas_algorithms import nxapi

    w = {"pagerank": [1.0, 1.0], "hits": [1.0, 1 - 2.0**-5], "eigenvector_centrality": [-2.0, -2.0],
         "katz_centrality": [20.0, 20.0]}[call]
    loops = call != "pagerank"
    g = ctx.graph("A", 2, directed=True, dtype="FP64", weight=lambda i, j: w[i], keys="perm", iso=None,
                  present=lambda i, j: (i == j) == loops)
    kw = {"alpha": 1.0, "nstart": {g.K[0]: 1.0}} if call == "pagerank" else {}
    try:
        getattr(nxapi, call)(g.G, **kw)
        ctx.fail(f"{call}: returned although no iterate converged")
    except Exception as e:
        n = 1000 if call == "katz_centrality" else 100
        ctx.check(str(n) in re.findall("[0-9]+", str(e)), f"{call} gives up after {n} iterations")


def _max(v):
    r = v[0]
    for y in v[1:]:
        r = T.max_(r, y)
    return r


BOUNDS = (
    "every directed and undirected graph on 1-3 nodes with self-edges; weights 1, iso-valued, "
    "fixed and different, or real 1/2..4 (2 nodes); tolerance any real in 0..1, 1-3 iterations "
    "(all branches of the stopping rule), damping 0.85, 0 or any real in 0..1; uniform, partial and "
    "symbolic personalization, dangling weights and starting vectors; ordered and partial node lists; default "
    "tolerance (starting vectors near the fixed point)"
)
OUTSIDE = (
    "real numbers are exact (floating-point rounding is ignored), rows of weight zero, more than "
    "3 nodes or 3 iterations (the step is the same)"
)


def instances(tier):
    q = tier == "quick"
    out = []
    add = lambda *a, **k: out.append(Inst(*a, **k))  # noqa: E731
    for d in (False, True):
        for w in ("one", "fixed"):
            add("pagerank", n=1, directed=d, weight=w, steps=2)
            add("pagerank", n=3, directed=d, weight=w, steps=1 if d else 2, shards=3 if d else 0)
            add("google", n=3, directed=d, weight=w, shards=3 if d else 0)
            add("hits", n=2, directed=d, weight=w, steps=2)
            add("hits", n=3, directed=d, weight=w, steps=1, shards=3 if d else 0)
        add("pagerank", n=2, directed=d, weight="real", steps=1, loops=False)
        add("pagerank", n=2, directed=d, weight="iso", steps=2)
        add("google", n=2, directed=d, weight="real")
        for a in (0.0, "sym"):
            add("pagerank", n=2, directed=d, weight="fixed", steps=1, alpha=a)
            add("google", n=2, directed=d, weight="fixed", alpha=a)
        for pers in ("some", "zeros", "sym"):
            n = 2 if pers == "sym" else 3
            w = "one" if pers == "zeros" else "fixed"
            add("pagerank", n=n, directed=d, weight=w, steps=1, pers=pers, loops=n == 2)
            add("pagerank", n=n, directed=d, weight=w, steps=1, dangling=pers, loops=n == 2)
            add("pagerank", n=n, directed=d, weight=w, steps=1, start=pers, loops=n == 2)
            add("google", n=n, directed=d, weight=w, pers=pers)
            add("google", n=n, directed=d, weight=w, dangling=pers)
            if pers != "sym":
                add("hits", n=2, directed=d, weight=w, steps=1, start=pers)
                add("hits", n=2, directed=d, weight=w, steps=1, start=pers, authority=True)
        add("pagerank", n=3, directed=d, weight="one", steps=1, pers="some", dangling="zeros", loops=False)
        for nl in ([2, 0, 1], [1, 0], [2]):
            add("google", n=3, directed=d, weight="fixed", nodelist=nl)
            add("google", n=3, directed=d, weight="fixed", nodelist=nl, pers="zeros" if 1 not in nl[:1] else "some")
            add("google", n=3, directed=d, weight="fixed", nodelist=nl, dangling="some" if nl != [2] else "sym")
        for norm in (False, True):
            add("hits", n=2, directed=d, weight="fixed", steps=1, normalized=norm, authority=True)
            add("hits", n=2, directed=d, weight="fixed", steps=1, normalized=norm)
    for d in (False, True):
        for dt, w in (("BOOL", "one"), ("INT64", "one"), ("INT64", "fixed")):
            for h in ("pagerank", "google", "hits"):
                k = {} if h == "google" else {"steps": 1}
                add(h, n=2 if d else 3, directed=d, weight=w, dtype=dt, **k)
        for h in ("pagerank", "hits"):
            for start in ("sym", "near"):
                add(h, n=2, directed=d, weight="one", steps=1, start=start, tol="default")
    for shape in ("lasso", "back", "path+"):
        for d in (False, True):
            for w in ("one", "fixed"):
                if d or shape != "back":
                    add("pagerank", n=4, directed=d, weight=w, steps=2 if q else 3, shape=shape)
                    add("pagerank", n=4, directed=d, weight=w, steps=1, pers="some", dangling="zeros", shape=shape)
                    add("pagerank", n=4, directed=d, weight=w, steps=1, start="zeros", pers="zeros", shape=shape)
                    add("google", n=4, directed=d, weight=w, shape=shape, nodelist=[3, 1], dangling="some")
                    add("google", n=5, directed=d, weight=w, shape=shape, nodelist=[3, 1, 0, 4], pers="some")
                    add("google", n=4, directed=d, weight=w, shape=shape)
                    add("hits", n=4, directed=d, weight=w, steps=1, shape=shape)
    add("iterations", call="pagerank")
    add("iterations", call="hits")
    if not q:
        for d in (False, True):
            add("pagerank", n=3, directed=d, weight="fixed", steps=3, loops=False)
            add("pagerank", n=3, directed=d, weight="one", steps=3, loops=False, pers="some")
            add("hits", n=3, directed=d, weight="fixed", steps=2, shards=3)
            add("hits", n=2, directed=d, weight="fixed", steps=3, authority=True)
    return out
