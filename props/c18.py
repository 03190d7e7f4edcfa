"""could_be_isomorphic never rejects isomorphic graphs, and compares exactly the stated invariants."""

import itertools

from symgb import terms as T

from .spec import Inst, count


def _pair(ctx, n, directed, dtypes, keys=("perm", "str"), loops=True):
    w = {"INT64": ("int", 0, 2), "BOOL": ("bool",), "FP64": ("real", -1, 1)}
    g = ctx.graph("G", n, directed=directed, dtype=dtypes[0], weight=w[dtypes[0]], keys=keys[0], iso=None, loops=loops)
    return g, w


def _ask(ctx, name, g, h):
    from graphblas_algorithms import nxapi

    return bool(getattr(nxapi, name)(g.G, h.G))


def isomorphic(ctx, n, directed, name, dtypes=("INT64", "BOOL"), perms=None):
    """a renumbered and relabelled graph is never rejected, whatever is stored on the edges"""
    g, w = _pair(ctx, n, directed, dtypes)
    perm = ctx.choice("perm", perms or list(itertools.permutations(range(n))))
    back = {b: a for a, b in enumerate(perm)}
    weight = {"INT64": lambda i, j: 1 + (i * j) % 2, "BOOL": lambda i, j: (i + j) % 2 == 0, "FP64": lambda i, j: 0.5 * (i + j)}
    h = ctx.graph("H", n, directed=directed, dtype=dtypes[1], weight=weight[dtypes[1]], keys="str",
                  present=lambda i, j: g.p(back[i], back[j]), iso=None)
    ctx.check(_ask(ctx, name, g, h), f"{name} of isomorphic graphs")
    ctx.check(_ask(ctx, name, h, g), f"{name} of isomorphic graphs, exchanged")


def _degrees(g):
    out = []
    for a in range(g.n):
        d = count([g.p(a, j) for j in range(g.n)])
        if g.directed:
            d = T.add(d, count([g.p(j, a) for j in range(g.n)]))
        out.append(d)
    return out


def _triangles(g):
    out = []
    for a in range(g.n):
        tri = []
        for b, c in itertools.combinations([x for x in range(g.n) if x != a], 2):
            tri.append(T.b_and(g.p(a, b), g.p(a, c), g.p(b, c)))
        out.append(count(tri))
    return out


def _multiset_equal(xs, ys):
    """for every x: as many of them in xs as in ys"""
    conds = []
    for z in xs + ys:
        conds.append(T.eq(count([_eq(x, z) for x in xs]), count([_eq(y, z) for y in ys])))
    return T.b_and(*conds)


def _eq(x, z):
    return T.b_and(*[T.eq(a, b) for a, b in zip(x, z, strict=True)])


def exact(ctx, n, m, directed, name, dtypes=("INT64", "INT64"), loops=True):
    """True exactly if the invariants of the nodes agree"""
    g, w = _pair(ctx, n, directed, dtypes, loops=loops)
    h = ctx.graph("H", m, directed=directed, dtype=dtypes[1], weight="one", keys="str", iso=True, loops=loops)
    got = _ask(ctx, name, g, h)
    if n != m:
        ctx.check(not got, "another number of nodes")
        return
    cols = [_degrees(g)] + ([_triangles(g)] if name.startswith("fast_") else [])
    cols2 = [_degrees(h)] + ([_triangles(h)] if name.startswith("fast_") else [])
    xs, ys = list(zip(*cols, strict=True)), list(zip(*cols2, strict=True))
    ctx.check(T.b_iff(got, _multiset_equal(xs, ys)), f"{name} compares the nodes' invariants")


def joint(ctx, name, free, hfree):
    """five nodes: a triangle, and the listed pairs with or without an edge"""

    def part(tri, free):
        free = {tuple(e) for e in free}

        def present(i, j):
            if {i, j} <= set(tri) and i != j:
                return True
            return None if (i, j) in free else False

        return present

    g = ctx.graph("G", 5, dtype="INT64", weight="one", keys="perm", iso=True, present=part((0, 1, 2), free))
    h = ctx.graph("H", 5, dtype="INT64", weight="one", keys="str", iso=True, present=part((1, 3, 4), hfree))
    got = _ask(ctx, name, g, h)
    cols = [_degrees(g)] + ([_triangles(g)] if name.startswith("fast_") else [])
    cols2 = [_degrees(h)] + ([_triangles(h)] if name.startswith("fast_") else [])
    xs, ys = list(zip(*cols, strict=True)), list(zip(*cols2, strict=True))
    ctx.check(T.b_iff(got, _multiset_equal(xs, ys)), f"{name} compares the nodes' invariants")


BOUNDS = (
    "pairs of graphs on 3+3 and 2+3 (thorough also 4+4 undirected) nodes with self-edges, 5+5 nodes with a "
    "triangle and some free pairs, every "
    "renumbering, different labels, stored values, types and iso-ness of the two matrices"
)
OUTSIDE = "a directed graph compared with an undirected one; which triangles count in a directed graph"


def instances(tier):
    q = tier == "quick"
    out = []
    for name in ("fast_could_be_isomorphic", "faster_could_be_isomorphic"):
        for d in (False, True):
            out.append(Inst("isomorphic", n=3, directed=d, name=name))
            out.append(Inst("isomorphic", n=2, directed=d, name=name, dtypes=("FP64", "INT64")))
            if d and name.startswith("fast_"):  # which triangles of a directed graph count is not stated
                continue
            out.append(Inst("exact", n=2, m=2, directed=d, name=name))
            out.append(Inst("exact", n=2, m=3, directed=d, name=name))
            out.append(Inst("exact", n=3, m=3, directed=d, name=name))
        free = [(0, 0), (1, 1), (3, 3), (0, 3), (3, 4)]
        hfree = [(3, 3), (0, 0), (0, 3), (0, 2)]
        if not q:
            free.append((1, 4))
            hfree += [(4, 4), (2, 2), (2, 3)]
        out.append(Inst("joint", name=name, free=free, hfree=hfree))
    if not q:
        for name in ("fast_could_be_isomorphic", "faster_could_be_isomorphic"):
            out.append(Inst("isomorphic", n=4, directed=False, name=name, perms=[(1, 0, 2, 3), (1, 2, 3, 0)]))
            out.append(Inst("isomorphic", n=3, directed=True, name=name, dtypes=("FP64", "FP64")))
            out.append(Inst("exact", n=4, m=4, directed=False, name=name, loops=False))
    return out
