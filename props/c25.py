"""Labels and positions translate into each other without loss."""

import itertools

from symgb import terms as T
from symgb.harness import labels

from .c01 import _check
from .spec import Inst

NOWHERE = ("nowhere",)  # never a label of a graph
INTO = ("list_to_vector", "list_to_vector_values", "list_to_mask", "list_to_ids", "set_to_vector",
        "set_to_vector_extra", "dict_to_vector")
FROM = ("vector_to_dict", "vector_to_list", "vector_to_set", "vector_to_nodeset", "vector_to_nodemap")
HOLDERS = ("graph", "NodeSet", "NodeMap", "VectorNodeMap", "NodeNodeMap")


def _labels(n, keys):
    if keys == "mixed":  # labels of several types
        K = ["x", (0, 1), 7, frozenset({2}), 0][:n]
        return K, list(range(n))[::-1]
    return labels(n, keys)


def _holder(ctx, on, n, keys):
    """something that knows the labels K[i] of the positions i, and holds some data of its own"""
    K, order = _labels(n, keys)
    if on in ("graph", "digraph"):
        g = ctx.graph("A", n, directed=on == "digraph", keys=(K, order))
        return g.G, K
    from graphblas_algorithms.classes import nodemap, nodeset

    kid = {K[i]: i for i in order}
    if on in ("NodeSet", "NodeMap"):
        P = [ctx.decide(ctx.bool(f"h.p{i}")) for i in range(n)]
        v = ctx._vector("h", n, "INT64", dict(enumerate(P)), dict.fromkeys(range(n), 1))
        return (nodeset.NodeSet if on == "NodeSet" else nodemap.NodeMap)(v, key_to_id=kid), K
    P = {(i, j): ctx.decide(ctx.bool(f"h.p{i}.{j}")) if i == j else False for i in range(n) for j in range(n)}
    A = ctx._matrix("h", n, n, "INT64", P, dict.fromkeys(P, 1), None)
    return getattr(nodemap, on)(A, key_to_id=kid), K


def _picked(ctx, n, K, name="in"):
    """positions in some order: any subset, forwards or backwards"""
    take = [i for i in range(n) if ctx.decide(ctx.bool(f"{name}{i}"))]
    if len(take) > 1:
        take = list(ctx.choice(f"{name}.order", list(itertools.permutations(take))))
    return take


def _see_vector(ctx, v, size, want, label):
    ctx.check(int(v.size) == size, f"{label}: size {v.size}")
    got = ctx.vec(v)
    for i in set(got) | set(want):
        p, x = got.get(i, (False, None))
        q, y = want.get(i, (False, None))
        ctx.check(T.b_iff(p, q), f"{label}[{i}]: presence")
        if p is not False and q is not False:
            ctx.check(T.b_or(T.b_not(T.b_and(p, q)), T.eq(x, y)), f"{label}[{i}]: value")


def _refuses(ctx, f, label):
    try:
        f()
    except KeyError:
        return
    ctx.fail(f"{label}: an unknown label was accepted")


def into(ctx, fn, n, on, keys, size=None, form="list"):
    """labels -> positions"""
    H, K = _holder(ctx, on, n, keys)
    take = _picked(ctx, n, K)
    names = [K[i] for i in take]
    kw = {} if size is None else {"size": size}
    want = n if size is None else size
    make = {"list": list, "tuple": tuple, "iter": iter, "set": set, "twice": lambda x: [*x, *x]}[form]
    if fn == "list_to_vector":
        _see_vector(ctx, H.list_to_vector(make(names), bool, **kw), want, {i: (True, True) for i in take}, fn)
        v = H.list_to_vector(make(names), **kw)
        _see_vector(ctx, v, want, {i: (True, True) for i in take}, fn)
        ctx.check(H.list_to_vector(None) is None, "None stays None")
        bad = lambda: H.list_to_vector(make([*names, NOWHERE]))
    elif fn == "list_to_vector_values":
        W = [ctx.int(f"w{i}", -3, 3) for i in take]
        v = H.list_to_vector(make(names), int, values=[ctx.pyval(w) for w in W], **kw)
        _see_vector(ctx, v, want, {i: (True, w) for i, w in zip(take, W)}, fn)
        ctx.check(v.dtype == int, "dtype")
        w = ctx.int("w", -3, 3)
        v = H.list_to_vector(make(names), float, values=ctx.pyval(w), **kw)
        _see_vector(ctx, v, want, {i: (True, w) for i in take}, fn)
        ctx.check(v.dtype == float, "dtype")
        bad = lambda: H.list_to_vector(make([*names, NOWHERE]), int, values=1)
    elif fn == "list_to_mask":
        m = H.list_to_mask(make(names), **kw)
        ctx.check(bool(m.structure) and not bool(m.complement), "a structural mask")
        _see_vector(ctx, m.parent, want, {i: (True, True) for i in take}, fn)
        P = {i: ctx.bool(f"v.p{i}") for i in range(want)}
        W = {i: ctx.int(f"v.w{i}", -3, 3) for i in range(want)}
        v = ctx._vector("v", want, "INT64", P, W).dup(mask=m)
        _see_vector(ctx, v, want, {i: (P[i], W[i]) for i in take}, "masked by it")
        ctx.check(H.list_to_mask(None) is None, "None stays None")
        bad = lambda: H.list_to_mask(make([NOWHERE, *names]))
    elif fn == "list_to_ids":
        got = H.list_to_ids(make(names))
        ctx.check([int(x) for x in got] == take, f"{fn}: {list(got)} instead of {take}")
        back = H.list_to_keys(got)
        ctx.check(list(back) == names, f"list_to_keys: {back}")
        ctx.check(list(H.list_to_keys(make(take) if form != "set" else take)) == names, "list_to_keys")
        ctx.check(H.list_to_ids(None) is None and H.list_to_keys(None) is None, "None stays None")
        bad = lambda: H.list_to_ids(make([*names, NOWHERE]))
    elif fn == "set_to_vector":
        v = H.set_to_vector(make(names), **kw)
        _see_vector(ctx, v, want, {i: (True, True) for i in take}, fn)
        ctx.check(v.dtype == bool, "dtype")
        v = H.set_to_vector(make(names), int, **kw)
        _see_vector(ctx, v, want, {i: (True, 1) for i in take}, fn)
        ctx.check(v.dtype == int, "dtype")
        ctx.check(H.set_to_vector(None) is None, "None stays None")
        bad = lambda: H.set_to_vector(make([*names, NOWHERE]))
    elif fn == "set_to_vector_extra":
        arg = make([*names, NOWHERE, -1])
        v = H.set_to_vector(arg, ignore_extra=True, **kw)
        _see_vector(ctx, v, want, {i: (True, True) for i in take}, fn)
        if form == "set":
            ctx.check(arg == {*names, NOWHERE, -1}, "the argument stays what it was")
        return
    else:
        W = [ctx.int(f"w{i}", -3, 3) for i in take]
        d = {k: ctx.pyval(w) for k, w in zip(names, W)}
        v = H.dict_to_vector(d, dtype=int, **kw)
        _see_vector(ctx, v, want, {i: (True, w) for i, w in zip(take, W)}, fn)
        ctx.check(v.dtype == int, "dtype")
        v = H.dict_to_vector(d, dtype=float, **kw)
        _see_vector(ctx, v, want, {i: (True, w) for i, w in zip(take, W)}, fn)
        ctx.check(H.dict_to_vector(None) is None, "None stays None")
        bad = lambda: H.dict_to_vector({**d, NOWHERE: 1})
    _refuses(ctx, bad, fn)


def _vector(ctx, n, dtype, name="v"):
    P = {i: ctx.bool(f"{name}.p{i}") for i in range(n)}
    kind = {"INT64": ("int", -3, 3), "FP64": ("real", -4, 4), "BOOL": ("bool",)}[dtype]
    W = {i: ctx.number(f"{name}.w{i}", *kind) for i in range(n)}
    return ctx._vector(name, n, dtype, P, W), P, W


def _see_map(ctx, got, want, label):
    ctx.check(set(got) <= set(want), f"{label}: {set(got) - set(want)} are not labels")
    for k, (p, x) in want.items():
        ctx.check(T.b_iff(k in got, p), f"{label}[{k}]: presence")
        if k in got and p is not False:
            ctx.check(T.b_or(T.b_not(p), T.eq(ctx.num(got[k]), x)), f"{label}[{k}]: value")


def outof(ctx, fn, n, on, keys, dtype="INT64", fill=None, mask=False, vak=False):
    """positions -> labels"""
    H, K = _holder(ctx, on, n, keys)
    if vak:
        P = {i: ctx.bool(f"v.p{i}") for i in range(n)}
        W = {i: ctx.int(f"v.w{i}", 0, n - 1) for i in range(n)}
        v = ctx._vector("v", n, "INT64", P, W)
    else:
        v, P, W = _vector(ctx, n, dtype)
    if fn == "vector_to_set":
        got = H.vector_to_set(v)
        ctx.check(type(got) is set, "a set")
        for i in range(n):
            ctx.check(T.b_iff(K[i] in got, P[i]), f"{fn}: {K[i]}")
        ctx.check(len(got) <= n, "nothing else")
        return
    if fn == "vector_to_nodeset":
        got = H.vector_to_nodeset(v)
        for i in range(n):
            ctx.check(T.b_iff(bool(K[i] in got), P[i]), f"{fn}: {K[i]}")
        ctx.check(len(set(got)) == int(len(got)), "len")
        ctx.check(set(got) == {k for k in K if k in got}, "elements")
        return
    if fn == "vector_to_list":
        if vak:  # the labels that are the values, in the order of the positions
            here = [i for i in range(n) if ctx.decide(P[i])]
            want = [K[ctx.value(W[i])] for i in here]
            got = H.vector_to_list(v, values_are_keys=True)
        else:
            want = [K[i] for i in range(n) if ctx.decide(P[i])]
            got = H.vector_to_list(v)
        ctx.check(list(got) == want, f"{fn}: {got} instead of {want}")
        return
    kw = {}
    Q = dict.fromkeys(range(n), False)
    if mask:
        # the mask covers at least what is stored
        Q = {i: T.b_or(P[i], ctx.bool(f"m.p{i}")) for i in range(n)}
        kw["mask"] = ctx._vector("m", n, "BOOL", Q, {i: ctx.bool(f"m.w{i}") for i in range(n)}).S
    elif fill is not None:
        Q = dict.fromkeys(range(n), True)
    if fill is not None:
        kw["fill_value"] = fill
    if fn == "vector_to_dict":
        got = H.vector_to_dict(v, **kw)
        ctx.check(type(got) is dict, "a dict")
    else:
        if vak:
            kw["values_are_keys"] = True
        got = H.vector_to_nodemap(v, **kw)
        got = {k: got[k] for k in [*got]}
    if vak:
        ctx.check(set(got) <= set(K), "keys")
        for i in range(n):
            ctx.check(T.b_iff(K[i] in got, T.b_or(P[i], Q[i] if fill is not None else False)), f"{fn}[{K[i]}]: presence")
            if K[i] in got:
                ctx.check(T.b_or(T.b_not(P[i]), *[T.b_and(T.eq(W[i], j), got[K[i]] == K[j]) for j in range(n)]), f"{fn}[{K[i]}]: value")
        return
    want = {}
    for i in range(n):
        q = Q[i] if fill is not None else False
        want[K[i]] = (T.b_or(P[i], q), T.if_(P[i], W[i], 0 if fill is None else fill))
    _see_map(ctx, got, want, fn)


def matrices(ctx, fn, n, on, keys, dtype="INT64", fill=None, vak=False, iso=None, transposed=False):
    """entries of a matrix under the labels of their rows and columns"""
    H, K = _holder(ctx, on, n, keys)
    P = {(i, j): ctx.bool(f"M.p{i}.{j}") for i in range(n) for j in range(n)}
    kind = ("int", 0, n - 1) if vak else {"INT64": ("int", -3, 3), "FP64": ("real", -4, 4), "BOOL": ("bool",)}[dtype]
    one = ctx.number("M.w", *kind) if iso else None
    W = {ij: one if iso else ctx.number(f"M.w{ij[0]}.{ij[1]}", *kind) for ij in P}
    M = ctx._matrix("M", n, n, dtype, P, W, True if iso else "sym")
    if transposed:
        M, P, W = M.T, {(j, i): p for (i, j), p in P.items()}, {(j, i): w for (i, j), w in W.items()}

    def row(i):
        return T.b_or(*[P[i, j] for j in range(n)])

    if fn == "dicts":
        got = H.matrix_to_dicts(M, values_are_keys=True) if vak else H.matrix_to_dicts(M)
        cols = K
    elif fn == "nodenodemap":
        kw = {} if fill is None else {"fill_value": fill}
        if vak:
            kw["values_are_keys"] = True
        m = H.matrix_to_nodenodemap(M, **kw)
        got = {k: {k2: m[k][k2] for k2 in m[k]} for k in m}
        cols = K
    else:
        m = H.matrix_to_vectornodemap(M)
        got = {k: {k2: m[k][k2] for k2 in m[k]} for k in m}
        cols = range(n)
    ctx.check(set(got) <= set(K), "keys")
    for i in range(n):
        full = fill is not None
        ctx.check(T.b_iff(K[i] in got, True if full else row(i)), f"row {K[i]}")
        r = got.get(K[i], {})
        ctx.check(set(r) <= set(cols), f"row {K[i]}: {set(r)}")
        for j, c in enumerate(cols):
            p = P[i, j]
            ctx.check(T.b_iff(c in r, True if full else p), f"[{K[i]}][{c}]: presence")
            if c not in r:
                continue
            if vak:
                ok = T.b_or(*[T.b_and(T.eq(W[i, j], a), r[c] == K[a]) for a in range(n)])
                ctx.check(T.b_or(T.b_not(p), ok), f"[{K[i]}][{c}]: value")
            else:
                ctx.check(T.eq(ctx.num(r[c]), T.if_(p, W[i, j], fill) if full else W[i, j]) if full
                          else T.b_or(T.b_not(p), T.eq(ctx.num(r[c]), W[i, j])), f"[{K[i]}][{c}]: value")


def renumber(ctx, n, on, keys, array):
    """the nodes of a subgraph keep their labels, in the order asked"""
    import numpy as np

    H, K = _holder(ctx, on, n, keys)
    take = _picked(ctx, n, K)
    got = H.renumber_key_to_id(np.array(take, np.uint64) if array else take)
    ctx.check({k: int(i) for k, i in got.items()} == {K[i]: a for a, i in enumerate(take)}, f"{got}")
    # the labels of the submatrix
    sub = type(H)(H._A[take, take].new(), key_to_id=got) if take else None
    if sub is not None:
        ctx.check(list(sub.list_to_keys(range(len(take)))) == [K[i] for i in take], "labels of the submatrix")
        A, B = ctx.mat(H._A), ctx.mat(sub._A)
        for a, i in enumerate(take):
            for b, j in enumerate(take):
                x, y = sub.list_to_ids([K[i], K[j]])
                p, q = A.get((i, j), (False, None))[0], B.get((int(x), int(y)), (False, None))[0]
                ctx.check(T.b_iff(p, q), f"{K[i]} -> {K[j]}")


def identity(ctx, n, directed, keys, given=True):
    """what a graph says about itself"""
    import graphblas_algorithms as ga

    cls = ga.DiGraph if directed else ga.Graph
    K, order = _labels(n, keys)
    if not given:
        K, order = list(range(n)), list(range(n))
    A, P, W = ctx.graph("A", n, directed=directed, dtype="INT64", weight=("int", -3, 3), matrix_only=True)
    kw = {"key_to_id": {K[i]: i for i in order}} if given else {}
    G = cls(A, color="red", **kw)
    ctx.check(G.matrix is A, "the matrix is not copied")
    ctx.check(len(G) == n and G.number_of_nodes() == n and G.order() == n, "number of nodes")
    ctx.check(list(G) == [K[i] for i in order], "iteration")
    for k in K:
        ctx.check(k in G, f"{k} in G")
    for k in (NOWHERE, -1, n, "nothing", None, [0], {}):
        ctx.check((k in G) is False, f"{k} not in G")
    ctx.check({i: G.id_to_key[i] for i in range(n)} == dict(enumerate(K)), "id_to_key")
    ctx.check(len(G.id_to_key) == n, "id_to_key")
    ctx.check(G.is_directed() is directed and G.is_multigraph() is False, "kind")
    ctx.check(G.to_directed_class() is ga.DiGraph and G.to_undirected_class() is ga.Graph, "classes")
    ctx.check(G.graph == {"color": "red"} and G.name == "", "attributes")
    G.name = "N"
    ctx.check(G.name == "N" and G.graph == {"color": "red", "name": "N"}, "name")
    ctx.check(cls(A).graph == {} and cls(A).name == "", "attributes are not shared")
    got = ctx.mat(G.matrix)
    for ij in P:
        p, w = got.get(ij, (False, None))
        ctx.check(T.b_iff(p, P[ij]), f"edge {ij}")
        if p is not False:
            ctx.check(T.b_or(T.b_not(p), T.eq(w, W[ij])), f"value {ij}")


def construct(ctx, directed):
    import graphblas as gb

    import graphblas_algorithms as ga

    cls = ga.DiGraph if directed else ga.Graph
    r, c = ctx.int("r", 1, 4), ctx.int("c", 1, 4)
    r, c = ctx.value(r), ctx.value(c)
    P = {(i, j): ctx.bool(f"p{i}.{j}") for i in range(min(r, 2)) for j in range(min(c, 2))}
    A = ctx._matrix("A", r, c, "BOOL", P, dict.fromkeys(P, True), None)
    try:
        G = cls(A)
    except ValueError:
        ctx.check(r != c, "a square matrix is accepted")
    else:
        ctx.check(r == c, "a matrix that is not square is refused")
        ctx.check(len(G) == r and list(G) == list(range(r)), "labels")
    v = gb.Vector(int, 2)
    for bad in (v, "graph", 5):
        try:
            cls(bad)
        except TypeError:
            pass
        else:
            ctx.fail(f"{bad!r} is accepted as a matrix")


REQUESTS = [
    "count_rowwise- has_self_edges",
    "has_self_edges,row_degrees-,diag",
    ["min_element+", "A", "offdiag", "iso_value"],
    "AT, U- L-,  count_rowwise+",
    ["has_negative_edges-", "has_negative_diagonal", "min_element-"],
    "plus_rowwise+ plus_rowwise- max_element+",
    ("row_degrees+", "count_rowwise-", "count_rowwise+"),
    "",
]
DIREQUESTS = [
    "column_degrees+ row_degrees+ total_degrees-",
    ["recip_degrees-", "total_recip-", "has_self_edges"],
    "plus_columnwise- plus_rowwise-,count_columnwise+",
]


def requests(ctx, n, directed, names, dtype="INT64"):
    """several properties at once: the answers in the order of the names"""
    g = ctx.graph("A", n, directed=directed, dtype=dtype, weight=("int", -2, 2))
    got = g.G.get_properties(names)
    if isinstance(names, str):
        names = names.replace(",", " ").split()
    ctx.check(len(got) == len(names), f"{len(got)} answers for {len(names)} names")
    for name, x in zip(names, got):
        _check(ctx, g, name, x, f"get_properties: {name}")


BOUNDS = (
    "holders (graphs and result containers) with 1-3 nodes (thorough 4) with permuted integer, string and mixed labels; "
    "every sub-list of the labels in every order (and one unknown label), every vector and matrix over the nodes with "
    "int, float or bool values; masks that cover what is stored, fill values 0, 7 or none; lists of up to four properties"
)
OUTSIDE = "repeated labels in a list (but for masks), masks that do not cover the stored entries"


def instances(tier):
    q = tier == "quick"
    n = 3 if q else 4
    out = []
    for d in (False, True):
        for keys in ("perm", "str", "mixed"):
            out.append(Inst("identity", n=3, directed=d, keys=keys))
        for k in (1, 2, 3):
            out.append(Inst("identity", n=k, directed=d, keys="id", given=False))
        out.append(Inst("construct", directed=d))
        for names in REQUESTS + (DIREQUESTS if d else ["degrees+ degrees- count_rowwise+"]):
            out.append(Inst("requests", n=2, directed=d, names=names))
        out.append(Inst("requests", n=2, directed=d, names="has_negative_edges+ has_self_edges diag", dtype="FP64"))
        for arr in (False, True):
            out.append(Inst("renumber", n=3, on="digraph" if d else "graph", keys="str" if arr else "perm", array=arr))
    for fn in INTO:
        for on in HOLDERS:
            out.append(Inst("into", fn=fn, n=3 if on == "graph" else 2, on=on, keys="perm" if on == "graph" else "str"))
        forms = ("tuple", "iter", "set") if fn.startswith("set") else ("tuple", "iter")
        if fn in ("list_to_mask", "set_to_vector_extra"):
            forms += ("twice",)
        for form in forms if fn != "dict_to_vector" else ():
            out.append(Inst("into", fn=fn, n=2, on="graph", keys="mixed", form=form))
        if fn != "list_to_ids":
            out.append(Inst("into", fn=fn, n=2, on="graph", keys="perm", size=5))
        out.append(Inst("into", fn=fn, n=n, on="digraph", keys="mixed"))
    for fn in FROM:
        for on in HOLDERS:
            out.append(Inst("outof", fn=fn, n=3 if on == "graph" else 2, on=on, keys="perm" if on == "graph" else "str"))
        for dtype in ("FP64", "BOOL"):
            out.append(Inst("outof", fn=fn, n=n, on="graph", keys="mixed", dtype=dtype))
        if fn == "vector_to_list":
            for keys in ("perm", "str"):
                out.append(Inst("outof", fn=fn, n=3, on="graph", keys=keys, vak=True))
    for fn in ("vector_to_dict", "vector_to_nodemap"):
        for fill in (None, 0, 7):
            for mask in (False, True):
                for on in ("graph", "NodeMap"):
                    for dtype in ("INT64", "FP64"):
                        out.append(Inst("outof", fn=fn, n=3 if on == "graph" else 2, on=on, keys="perm", dtype=dtype, fill=fill, mask=mask))
                if fn == "vector_to_nodemap" and fill is None:
                    out.append(Inst("outof", fn=fn, n=3, on="graph", keys="perm", mask=mask, vak=True))
    for fn in ("dicts", "nodenodemap", "vectornodemap"):
        for dtype in ("INT64", "FP64", "BOOL"):
            out.append(Inst("matrices", fn=fn, n=2, on="graph", keys="str" if dtype == "BOOL" else "perm", dtype=dtype))
        out.append(Inst("matrices", fn=fn, n=2, on="graph", keys="mixed", iso=True))
        if fn != "vectornodemap":
            out.append(Inst("matrices", fn=fn, n=2, on="graph", keys="str", vak=True))
            out.append(Inst("matrices", fn=fn, n=2, on="graph", keys="str", vak=True, iso=True))
        if not q:
            out.append(Inst("matrices", fn=fn, n=3, on="graph", keys="perm"))
    out.append(Inst("matrices", fn="dicts", n=2, on="graph", keys="str", vak=True, transposed=True))
    for fill in (0, 7):
        out.append(Inst("matrices", fn="nodenodemap", n=2, on="graph", keys="str", fill=fill))
    return out
