"""Reference specifications on raw terms (run symbolically and concretely)."""

from symgb import terms as T
from symgb.runner import Inst  # noqa: F401


def adj(g, *, offdiag=True, undirected=False, transpose=False):
    """n x n list of presence terms"""
    n = g.n
    A = [[g.p(i, j) for j in range(n)] for i in range(n)]
    if offdiag:
        for i in range(n):
            A[i][i] = False
    if transpose:
        A = [[A[j][i] for j in range(n)] for i in range(n)]
    if undirected:
        A = [[T.b_or(A[i][j], A[j][i]) for j in range(n)] for i in range(n)]
    return A


def reach_within(A, src, k):
    """set of presence terms: nodes with a walk of length <= k from src (src: id or list of ids)"""
    n = len(A)
    srcs = [src] if isinstance(src, int) else src
    cur = [i in srcs for i in range(n)]
    out = [cur]
    for _ in range(k):
        cur = [T.b_or(cur[j], *[T.b_and(cur[i], A[i][j]) for i in range(n)]) for j in range(n)]
        out.append(cur)
    return out


def reach(A, src):
    return reach_within(A, src, len(A) - 1)[-1]


def hop(A, src):
    """list of (reachable, distance) raw terms"""
    n = len(A)
    R = reach_within(A, src, n - 1)
    out = []
    for j in range(n):
        d = n
        for k in range(n - 1, -1, -1):
            d = T.if_(R[k][j], k, d)
        out.append((R[-1][j], d))
    return out


def hop_exactly(A, src, k):
    n = len(A)
    if k >= n:
        return [False] * n
    R = reach_within(A, src, k)
    if k == 0:
        return R[0]
    return [T.b_and(R[k][j], T.b_not(R[k - 1][j])) for j in range(n)]


def count(bs):
    return T.ssum([T.to_int(b) for b in bs])


def implies(a, b):
    return T.b_or(T.b_not(a), b)


# ------------------------------------------------------------------ weighted distances
def wadj(g, num=None, transpose=False):
    """n x n list of (presence, weight)"""
    n = g.n
    num = num or (lambda x: T.to_int(x) if T.kind_of(x) == "b" else x)
    A = [
        [(g.p(i, j), num(g.w(i, j)) if g.p(i, j) is not False else 0) for j in range(n)]
        for i in range(n)
    ]
    if transpose:
        A = [[A[j][i] for j in range(n)] for i in range(n)]
    return A


def opt_min(a, b):
    """min of two optional numbers (presence, value)"""
    (p, v), (q, w) = a, b
    if p is False:
        return b
    if q is False:
        return a
    if p is True and q is True:
        return True, T.min_(v, w)
    r = T.if_(T.b_and(q, T.b_or(T.b_not(p), T.lt(w, v))), w, v)
    return T.b_or(p, q), r


def relax(W, d):
    """one round of relaxations over every edge (d: list of optional numbers)"""
    n = len(W)
    out = []
    for j in range(n):
        best = d[j]
        for i in range(n):
            p, w = W[i][j]
            q = T.b_and(p, d[i][0])
            if q is not False:
                best = opt_min(best, (q, T.add(d[i][1], w)))
        out.append(best)
    return out


def bellman(W, src, zero=0):
    """(d, improving): d = shortest walk with at most n-1 edges, improving[j] = an n-th edge helps"""
    n = len(W)
    d = [(i == src, zero) for i in range(n)]
    for _ in range(n - 1):
        d = relax(W, d)
    e = relax(W, d)
    imp = [T.b_and(e[j][0], T.b_or(T.b_not(d[j][0]), T.lt(e[j][1], d[j][1]))) for j in range(n)]
    return d, imp


def simple_paths(n, s, t):
    import itertools

    if s == t:
        return [(s,)]
    rest = [i for i in range(n) if i not in (s, t)]
    return [
        (s, *m, t) for k in range(len(rest) + 1) for m in itertools.permutations(rest, k)
    ]


def simple_cycles(n):
    """node tuples (first is the smallest) of all simple directed cycles incl. self-edges"""
    import itertools

    out = []
    for k in range(1, n + 1):
        for nodes in itertools.combinations(range(n), k):
            for rest in itertools.permutations(nodes[1:]):
                out.append((nodes[0], *rest))
    return out


def negative_cycles(W):
    """list of (nodes, condition that the cycle exists and has negative weight)"""
    out = []
    for c in simple_cycles(len(W)):
        p, w = True, 0
        for a, b in zip(c, (*c[1:], c[0])):
            p = T.b_and(p, W[a][b][0])
            w = T.add(w, W[a][b][1])
        if p is not False:
            out.append((c, T.b_and(p, T.lt(w, 0))))
    return out


def given(default, **kw):
    """the arguments that are not the default ones: the rest is left out of the call"""
    return {k: v for k, v in kw.items() if k not in default or not (type(v) is type(default[k]) and v == default[k])}


def opt(x):
    """a last argument, left out when it is None"""
    return () if x is None else (x,)
