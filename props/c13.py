"""Graph operators: union, compose, intersection, differences, joins, complement, reverse."""

from symgb import terms as T

from .spec import Inst, given

KEYS = {
    # how the labels of H relate to those of G (G: a, b, c, ...)
    "same": lambda n, m: [chr(97 + i) for i in range(m)],
    "perm": lambda n, m: [chr(97 + (i + 1) % m) for i in range(m)],
    "over1": lambda n, m: [chr(97 + (n + m - 2 - i)) for i in range(m)],  # one shared label
    "over2": lambda n, m: [chr(97 + (n + m - 3 - i)) for i in range(m)],
    "disjoint": lambda n, m: [chr(97 + n + m - 1 - i) for i in range(m)],
}


def _two(ctx, n, m, directed, keys, dtypes=("INT64", "INT64")):
    W = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}
    kg = [chr(97 + i) for i in range(n)]
    og = [(i + 1) % n for i in range(n)]
    kh = KEYS[keys](n, m)
    oh = list(range(m))
    g = ctx.graph("G", n, directed=directed, dtype=dtypes[0], weight=W[dtypes[0]], keys=(kg, og))
    h = ctx.graph("H", m, directed=directed, dtype=dtypes[1], weight=W[dtypes[1]], keys=(kh, oh))
    return g, h


def _read(ctx, R):
    """{(key, key): (presence, value)} and well-formedness of a result graph"""
    kid = R._key_to_id
    n = len(R)
    ctx.check(sorted(kid.values()) == list(range(n)), "ids are 0..n-1")
    M = ctx.mat(R._A)
    return {(a, b): M.get((i, j), (False, None)) for a, i in kid.items() for b, j in kid.items()}


def _fresh(ctx, R, *ins):
    ctx.check(all(R._A is not g.G._A for g in ins), "the result is a new graph")
    ctx.check(
        all(type(R) is type(g.G) for g in ins), "the result has the type of the input graphs"
    )


def _e(g, a, b):
    if a in g.ids and b in g.ids:
        i, j = g.ids[a], g.ids[b]
        return g.p(i, j), g.w(i, j) if (i, j) in g.W else None
    return False, None


def _cmp(ctx, R, nodes, want, label, values):
    got = _read(ctx, R)
    ctx.check(set(R._key_to_id) == set(nodes), f"{label}: nodes")
    for a in nodes:
        for b in nodes:
            p, v = got.get((a, b), (False, None))
            q, w = want(a, b)
            ctx.check(T.b_iff(p, q), f"{label}: edge {a}-{b}")
            both = T.b_and(p, q)
            if values and both is not False:
                ctx.check(
                    T.b_or(T.b_not(both), T.eq(T.to_num(v), T.to_num(w))), f"{label}: value {a}-{b}"
                )


def binary(ctx, n, m, directed, keys, op, dtypes=("INT64", "INT64")):
    from graphblas_algorithms import nxapi
    from graphblas_algorithms.nxapi.exception import NetworkXError

    g, h = _two(ctx, n, m, directed, keys, dtypes)
    same = set(g.K) == set(h.K)
    disjoint = not (set(g.K) & set(h.K))
    fails = {
        "union": not disjoint,
        "full_join": not disjoint,
        "difference": not same,
        "symmetric_difference": not same,
    }.get(op, False)
    sg, sh = ctx.snapshot(g.G._A), ctx.snapshot(h.G._A)
    try:
        R = getattr(nxapi, op)(g.G, h.G)
    except NetworkXError:
        ctx.check(fails, f"{op}: NetworkXError")
        return
    ctx.check(not fails, f"{op}: must raise NetworkXError")
    if fails:
        return
    _fresh(ctx, R, g, h)
    values = False
    if op in ("union", "compose", "full_join"):
        nodes = [*g.K, *[k for k in h.K if k not in g.ids]]
        values = True

        def want(a, b):
            p, v = _e(g, a, b)
            q, w = _e(h, a, b)
            if op == "full_join" and (a in g.ids) != (b in g.ids):
                return True, 1
            if p is False:
                return q, w
            if q is False:
                return p, v
            return T.b_or(p, q), T.if_(q, T.to_num(w), T.to_num(v))

    else:
        nodes = [k for k in g.K if k in h.ids]

        def want(a, b):
            p, q = _e(g, a, b)[0], _e(h, a, b)[0]
            return {
                "intersection": T.b_and(p, q),
                "difference": T.b_and(p, T.b_not(q)),
                "symmetric_difference": T.b_xor(p, q),
            }[op], 1

    _cmp(ctx, R, nodes, want, op, values)
    ctx.check(
        _unchanged(ctx, sg, g.G._A) and _unchanged(ctx, sh, h.G._A), f"{op}: inputs unchanged"
    )


def _unchanged(ctx, snap, A):
    now = ctx.snapshot(A)
    if set(now) != set(snap):
        return False
    return all(_same(now[k][0], snap[k][0]) and _same(now[k][1], snap[k][1]) for k in now)


def _same(a, b):
    if T.is_const(a) or T.is_const(b):
        return T.is_const(a) and T.is_const(b) and a == b
    return a.eq(b)


def renamed(ctx, n, directed, op, rename):
    from graphblas_algorithms import nxapi
    from graphblas_algorithms.nxapi.exception import NetworkXError

    g, h = _two(ctx, n, n, directed, "same")
    kg = [k if not rename or rename[0] is None else f"{rename[0]}{k}" for k in g.K]
    kh = [k if len(rename) < 2 or rename[1] is None else f"{rename[1]}{k}" for k in h.K]
    fails = bool(set(kg) & set(kh))
    try:
        R = getattr(nxapi, op)(g.G, h.G, **given({"rename": ()}, rename=tuple(rename)))
    except NetworkXError:
        ctx.check(fails, f"{op}: NetworkXError")
        return
    ctx.check(not fails, f"{op}: must raise NetworkXError")
    if fails:
        return
    _fresh(ctx, R, g, h)

    def want(a, b):
        if a in kg and b in kg:
            i, j = kg.index(a), kg.index(b)
            return g.p(i, j), g.w(i, j)
        if a in kh and b in kh:
            i, j = kh.index(a), kh.index(b)
            return h.p(i, j), h.w(i, j)
        return (op == "full_join"), 1

    _cmp(ctx, R, kg + kh, want, op, True)


def disjoint_union(ctx, n, m, directed, dtypes=("INT64", "INT64")):
    from graphblas_algorithms import nxapi

    W = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}
    g = ctx.graph("G", n, directed=directed, dtype=dtypes[0], weight=W[dtypes[0]], keys="rev")
    h = ctx.graph("H", m, directed=directed, dtype=dtypes[1], weight=W[dtypes[1]], keys="rev")
    R = nxapi.disjoint_union(g.G, h.G)
    _fresh(ctx, R, g, h)

    def want(a, b):
        if a < n and b < n:
            return g.p(a, b), g.w(a, b)
        if a >= n and b >= n:
            return h.p(a - n, b - n), h.w(a - n, b - n)
        return False, None

    _cmp(ctx, R, range(n + m), want, "disjoint_union", True)


def complement(ctx, n, directed, dtype="INT64", keys="perm"):
    from graphblas_algorithms import nxapi

    W = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}
    g = ctx.graph("G", n, directed=directed, dtype=dtype, weight=W[dtype], keys=keys)
    R = nxapi.complement(g.G)
    _fresh(ctx, R, g)
    _cmp(
        ctx,
        R,
        g.K,
        lambda a, b: (False if a == b else T.b_not(_e(g, a, b)[0]), None),
        "complement",
        False,
    )


def reverse(ctx, n, dtype, copy=True):
    from graphblas_algorithms import nxapi

    W = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}
    g = ctx.graph("G", n, directed=True, dtype=dtype, weight=W[dtype])
    g.G.graph["k"] = ["v"]
    R = nxapi.reverse(g.G, **given({"copy": True}, copy=copy))
    ctx.check(R.is_directed() and R.graph == {"k": ["v"]}, "type and attributes")
    _cmp(ctx, R, g.K, lambda a, b: _e(g, b, a), "reverse", True)
    if copy:
        _fresh(ctx, R, g)
        # a copy: writing to it does not write to the input
        before = ctx.snapshot(g.G._A)
        R._A[0, 0] = 1
        R.graph["k"].append("w")
        ctx.check(_unchanged(ctx, before, g.G._A), "the input is independent of the copy")
        ctx.check(g.G.graph == {"k": ["v"]}, "graph attributes are copied")


def undirected(ctx, n, reciprocal, dtype="INT64"):
    W = {"INT64": ("int", 0, 2), "FP64": ("real", -2, 2), "BOOL": ("bool",)}
    g = ctx.graph("G", n, directed=True, dtype=dtype, weight=W[dtype])
    U = g.G.to_undirected(reciprocal=reciprocal)
    ctx.check(not U.is_directed(), "result is undirected")
    f = T.b_and if reciprocal else T.b_or
    _cmp(ctx, U, g.K, lambda a, b: (f(_e(g, a, b)[0], _e(g, b, a)[0]), None), "edges", False)
    M = ctx.mat(U._A)
    for i in range(n):
        for j in range(n):
            p, v = M.get((i, j), (False, None))
            if p is False:
                continue
            a = T.b_and(g.p(i, j), T.eq(v, g.w(i, j)))
            b = T.b_and(g.p(j, i), T.eq(v, g.w(j, i)))
            ctx.check(T.b_or(T.b_not(p), a, b), "weight is one of the two")
            q, w = M.get((j, i), (False, None))
            ctx.check(T.b_or(T.b_not(p), T.b_not(q), T.eq(v, w)), "symmetric")


def mixed(ctx, n, op):
    """a directed and an undirected graph cannot be combined"""
    from graphblas_algorithms import nxapi
    from graphblas_algorithms.nxapi.exception import NetworkXError

    first = ctx.choice("first", [False, True])
    g = ctx.graph("G", n, directed=first, dtype="INT64", keys="str")
    h = ctx.graph("H", n, directed=not first, dtype="INT64", keys="id" if op != "intersection" else "str")
    try:
        getattr(nxapi, op)(g.G, h.G)
    except NetworkXError:
        return
    ctx.fail(f"{op} of a directed and an undirected graph must raise")


BOUNDS = (
    "pairs of undirected graphs on up to 4+4 (thorough 6+6) and directed graphs on up to 3+3 "
    "(thorough 5+5) nodes, self-edges included, stored values 0..2, mixed bool/int/float "
    "matrices; equal, permuted, partially overlapping and disjoint labels; every combination of "
    "prefixes; complement and reverse on up to 5 (thorough 7) nodes"
)
OUTSIDE = "multigraphs, graph attributes (except for reverse), networkx inputs"

OPS = (
    "union", "compose", "intersection", "difference", "symmetric_difference", "full_join",
)


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        for op in OPS:
            for keys in KEYS:
                m = 3 if keys in ("same", "perm") else 2 if d or keys != "over2" else 3
                out.append(Inst("binary", n=3, m=m, directed=d, keys=keys, op=op))
        for op in ("union", "full_join"):
            for rename in ((), ("x",), ("x", None), (None, "y"), ("x", "y"), ("x", "x"), ("", "b")):
                out.append(Inst("renamed", n=2, directed=d, op=op, rename=rename))
        out.append(Inst("disjoint_union", n=3, m=2, directed=d))
        out.append(Inst("disjoint_union", n=2, m=3, directed=d, dtypes=("BOOL", "FP64")))
        for dt in ("INT64", "FP64", "BOOL"):
            out.append(Inst("complement", n=4, directed=d, dtype=dt))
        out.append(Inst("complement", n=3, directed=d, keys="str"))
        for keys in ("same", "perm", "over1", "disjoint"):
            for dts in (("BOOL", "FP64"), ("FP64", "INT64"), ("INT64", "BOOL")):
                for op in ("compose", "intersection", "symmetric_difference", "union"):
                    m = 2 if d or keys not in ("same", "perm") else 3
                    n = m if keys in ("same", "perm") else 2
                    out.append(
                        Inst("binary", n=n, m=m, directed=d, keys=keys, op=op, dtypes=dts)
                    )
    for dt in ("INT64", "FP64", "BOOL"):
        out.append(Inst("reverse", n=3, dtype=dt))
        for r in (False, True):
            out.append(Inst("undirected", n=3, reciprocal=r, dtype=dt))
    out.append(Inst("reverse", n=3, dtype="INT64", copy=False))
    for op in ("union", "compose", "intersection", "disjoint_union"):
        out.append(Inst("mixed", n=2, op=op))
    a, b = (4, 3) if q else (6, 5)
    for op in OPS:
        for keys in KEYS:
            m = a if keys in ("same", "perm") else a - 1
            out.append(Inst("binary", n=a, m=m, directed=False, keys=keys, op=op))
            out.append(Inst("binary", n=b, m=b, directed=True, keys=keys, op=op))
            for dts in (("BOOL", "FP64"), ("FP64", "INT64")) if not q else (("INT64", "BOOL"),):
                out.append(Inst("binary", n=b, m=b, directed=True, keys=keys, op=op, dtypes=dts))
    for d in (False, True):
        out.append(Inst("disjoint_union", n=a, m=a, directed=d))
        out.append(Inst("complement", n=a + 1, directed=d, dtype="BOOL"))
        for n, m in ((1, 1), (1, 2), (3, 1)):
            out.append(Inst("disjoint_union", n=n, m=m, directed=d))
            for op in OPS:
                out.append(Inst("binary", n=n, m=m, directed=d, keys="same", op=op))
                out.append(Inst("binary", n=n, m=m, directed=d, keys="disjoint", op=op))
        out.append(Inst("complement", n=1, directed=d))
    for r in (False, True):
        out.append(Inst("undirected", n=a, reciprocal=r))
    out.append(Inst("reverse", n=a + 1, dtype="FP64"))
    return out
