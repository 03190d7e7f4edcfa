"""Floyd-Warshall distances and predecessors."""

from symgb import terms as T

from .spec import Inst, bellman, negative_cycles, wadj

WEIGHTS = {
    "FP64": ("real", 0, 64),
    "INT64": ("int", 0, 3),
    "UINT8": ("int", 0, 3),
    "BOOL": ("bool",),
    "neg": ("int", -2, 3),
    "small": ("int", 0, 2),
}


def _g(ctx, n, directed, wt, weighted, keys):
    dt = {"neg": "INT64", "small": "INT64"}.get(wt, wt)
    g = ctx.graph("A", n, directed=directed, dtype=dt, weight=WEIGHTS[wt], keys=keys, iso=None)
    W = wadj(g)
    if not weighted:
        W = [[(p, 1) for p, _ in row] for row in W]
    elif wt == "neg":
        ctx.assume(T.b_not(T.b_or(*[bad for _, bad in negative_cycles(W)])))
    return g, W


def _cells(ctx, M):
    return ctx.mat(M.matrix)


def lengths(ctx, n, directed, wt, weighted, keys="perm"):
    from graphblas_algorithms import nxapi

    g, W = _g(ctx, n, directed, wt, weighted, keys)
    kw = {} if weighted else {"weight": None}
    D = nxapi.floyd_warshall(g.G, **kw)
    M = _cells(ctx, D)
    kid = D._key_to_id
    ctx.check(dict(kid) == dict(g.G._key_to_id), "labels")
    for s in range(n):
        d, _ = bellman(W, s)
        for t in range(n):
            p, v = M.get((kid[g.K[s]], kid[g.K[t]]), (False, None))
            ctx.check(T.b_iff(p, d[t][0]), f"reached {s}-{t}")
            if p is not False:
                ctx.check_close(v, d[t][1], f"distance {s}-{t}", given=T.b_and(p, d[t][0]))


def ordered(ctx, n, directed, wt, weighted, perm, keys="perm"):
    """floyd_warshall_numpy: a matrix in the order of a node list"""
    from graphblas_algorithms import nxapi

    g, W = _g(ctx, n, directed, wt, weighted, keys)
    kw = {} if weighted else {"weight": None}
    M = ctx.mat(nxapi.floyd_warshall_numpy(g.G, [g.K[i] for i in perm], **kw))
    for a, s in enumerate(perm):
        d, _ = bellman(W, s)
        for b, t in enumerate(perm):
            p, v = M.get((a, b), (False, None))
            ctx.check(T.b_iff(p, d[t][0]), f"reached {s}-{t}")
            if p is not False:
                ctx.check_close(v, d[t][1], f"distance {s}-{t}", given=T.b_and(p, d[t][0]))


def predecessors(ctx, n, directed, wt, weighted, keys="perm"):
    from graphblas_algorithms import nxapi

    g, W = _g(ctx, n, directed, wt, weighted, keys)
    kw = {} if weighted else {"weight": None}
    P, D = nxapi.floyd_warshall_predecessor_and_distance(g.G, **kw)
    Pm, Dm = _cells(ctx, P), _cells(ctx, D)
    kid = g.G._key_to_id
    ctx.check(D._fill_value == float("inf") and P._values_are_keys, "kind of the maps")
    for s in range(n):
        d, _ = bellman(W, s)
        # pred[t] as a raw term
        pred = {}
        for t in range(n):
            p, v = Dm.get((s, t), (False, None))
            ctx.check(T.b_iff(p, d[t][0]), f"reached {s}-{t}")
            if p is not False:
                ctx.check_close(v, d[t][1], f"distance {s}-{t}", given=T.b_and(p, d[t][0]))
            q, u = Pm.get((s, t), (False, None))
            if s == t:
                continue
            ctx.check(T.b_iff(q, d[t][0]), f"predecessor of {t} from {s} exists")
            if q is False:
                continue
            pred[t] = (q, u)
            ok = [
                T.b_and(
                    T.eq(u, x), W[x][t][0], d[x][0],
                    T.eq(T.add(d[x][1], W[x][t][1]), d[t][1]),
                )
                for x in range(n)
                if x != t
            ]
            ctx.check(
                T.b_or(T.b_not(T.b_and(q, d[t][0])), *ok), f"predecessor of {t} from {s}"
            )
        # following predecessors leads back to the source
        at = {t: [T.b_and(q, T.eq(u, x)) for x in range(n)] for t, (q, u) in pred.items()}
        for t in pred:
            here = [x == t for x in range(n)]
            for _ in range(n - 1):
                here = [
                    T.b_or(
                        T.b_and(x == s, here[s]),
                        *[T.b_and(here[y], at[y][x]) for y in at if y != s],
                    )
                    for x in range(n)
                ]
            ctx.check(T.b_or(T.b_not(pred[t][0]), here[s]), f"predecessors of {t} lead to {s}")
    assert kid == dict(kid)


BOUNDS = (
    "every undirected graph on 3-4 nodes and directed graph on 3 (thorough 4) nodes, self-edges "
    "included, weights 0..3 (real 0..64; bool; negative weights in directed graphs without "
    "negative cycles), weighted or not, permuted labels, several node orders"
)
OUTSIDE = "graphs with negative cycles, larger graphs, floating-point rounding"


def instances(tier):
    q = tier == "quick"
    out = []
    for h in ("lengths", "predecessors"):
        for d in (False, True):
            for wt in ("INT64", "FP64", "BOOL", "UINT8"):
                for w in (True, False):
                    if w or wt in ("INT64", "BOOL"):
                        out.append(Inst(h, n=3, directed=d, wt=wt, weighted=w))
            for n in (1, 2):
                out.append(Inst(h, n=n, directed=d, wt="INT64", weighted=True))
        out.append(Inst(h, n=3, directed=True, wt="neg", weighted=True))
        out.append(Inst(h, n=4, directed=False, wt="small", weighted=True, shards=3))
        out.append(Inst(h, n=4, directed=False, wt="BOOL", weighted=False, shards=2))
    for d in (False, True):
        for perm in ([0, 1, 2], [2, 0, 1], [1, 0, 2], [2, 1, 0]):
            out.append(Inst("ordered", n=3, directed=d, wt="INT64", weighted=True, perm=perm))
        out.append(Inst("ordered", n=3, directed=d, wt="BOOL", weighted=False, perm=[1, 2, 0]))
    for shape in ("path", "ring~", "lasso", "ladder", "back"):
        n = 5 if q else 6
        for wt, w in (("INT64", True), ("BOOL", False)) if q else (("INT64", True), ("FP64", True), ("BOOL", True), ("BOOL", False)):
            for h in ("lengths", "predecessors"):
                out.append(Inst(h, n=n, directed=True, wt=wt, weighted=w, shape=shape))
                if shape in ("ring~", "ladder"):
                    out.append(Inst(h, n=n, directed=False, wt=wt, weighted=w, shape=shape))
    if not q:
        for h in ("lengths", "predecessors"):
            out.append(Inst(h, n=4, directed=True, wt="small", weighted=True, shards=6))
            out.append(Inst(h, n=4, directed=True, wt="BOOL", weighted=False, shards=6))
            out.append(Inst(h, n=4, directed=False, wt="FP64", weighted=True, shards=4))
        for perm in ([3, 1, 0, 2], [1, 2, 3, 0]):
            out.append(
                Inst("ordered", n=4, directed=False, wt="small", weighted=True, perm=perm, shards=3)
            )
    return out
