"""Result containers obey the laws of sets and mappings (checked against dict and set)."""

from symgb import terms as T

from .spec import Inst

UNKNOWN = ("nowhere",)  # never a label of a graph


def _labels(n, keys):
    if keys == "rev":
        K = [f"n{n - 1 - i}" for i in range(n)]
        order = list(range(n))[::-1]
    else:  # permuted integers: label != position
        K = [(i + 1) % n if n > 1 else 7 for i in range(n)]
        order = [i for i in range(1, n)] + [0]
    return K, {K[i]: i for i in order}


def _decided(ctx, n, name):
    return [ctx.decide(ctx.bool(f"{name}.p{i}")) for i in range(n)]


# ------------------------------------------------------------------ sets


def _nodeset(ctx, n, keys, name="v"):
    from graphblas_algorithms.classes.nodeset import NodeSet

    K, kid = _labels(n, keys)
    P = _decided(ctx, n, name)
    # the stored values of a set must not matter
    W = {i: ctx.bool(f"{name}.w{i}") for i in range(n)}
    v = ctx._vector(name, n, "BOOL", dict(enumerate(P)), W)
    return NodeSet(v, key_to_id=kid), {K[i] for i in range(n) if P[i]}, K


def _outcome(f):
    try:
        return ("ok", f())
    except KeyError:
        return ("KeyError", None)
    except TypeError:
        return ("TypeError", None)


def _see_set(ctx, s, want, K, when):
    got = list(s)
    ctx.check(len(got) == len(set(got)), f"{when}: iteration repeats elements")
    ctx.check(set(got) == want, f"{when}: elements")
    ctx.check(int(len(s)) == len(want), f"{when}: len")
    for k in [*K, UNKNOWN]:
        ctx.check(bool(k in s) == (k in want), f"{when}: {k!r} in set")
    ctx.check(bool(s == want), f"{when}: == set")
    ctx.check(bool(want == s), f"{when}: set ==")
    ctx.check(not bool(s == (want | {UNKNOWN})), f"{when}: == larger set")
    ctx.check(bool(s) == bool(want), f"{when}: bool")


SET_OPS = ("add", "discard", "remove", "pop", "clear", "ior", "iand", "isub", "ixor", "none")


def _set_op(ctx, s, want, K, op, step):
    if op == "none":
        return s
    if op in ("add", "discard", "remove"):
        k = ctx.choice(f"key{step}", K if op == "add" else [*K, UNKNOWN])
        a, b = _outcome(lambda: getattr(s, op)(k)), _outcome(lambda: getattr(want, op)(k))
        ctx.check(a[0] == b[0], f"{op}({k!r}): {a[0]} instead of {b[0]}")
    elif op == "pop":
        a = _outcome(s.pop)
        ctx.check((a[0] == "ok") == bool(want), f"pop: {a[0]}")
        if a[0] == "ok":
            ctx.check(a[1] in want, "pop returned something that was not an element")
            want.discard(a[1])
    elif op == "clear":
        s.clear()
        want.clear()
    else:
        o = set(ctx.choice(f"other{step}", [(), tuple(K[:1]), tuple(K[1:]), tuple(K)]))
        if op == "ior":
            s |= o
            want |= o
        elif op == "iand":
            s &= o | {UNKNOWN}
            want &= o
        elif op == "isub":
            s -= o | {UNKNOWN}
            want -= o
        else:
            s ^= o
            want ^= o
    return s


def set_history(ctx, n, ops, keys="perm"):
    """element tests, iteration and comparisons agree with a set after every operation"""
    s, want, K = _nodeset(ctx, n, keys)
    if len(ops) == 1:
        _see_set(ctx, s, want, K, "start")
    other = s.copy()
    before = set(want)
    for step, op in enumerate(ops):
        s = _set_op(ctx, s, want, K, op, step)
        _see_set(ctx, s, want, K, f"after {'/'.join(ops[: step + 1])}")
    _see_set(ctx, other, before, K, "the copy made before")


def set_algebra(ctx, n, keys="perm"):
    """two sets, their algebra and comparisons"""
    a, x, K = _nodeset(ctx, n, keys, "a")
    b, y, _ = _nodeset(ctx, n, keys, "b")
    for name, f in {
        "&": lambda p, q: p & q,
        "|": lambda p, q: p | q,
        "-": lambda p, q: p - q,
        "^": lambda p, q: p ^ q,
    }.items():
        ctx.check(set(f(a, b)) == f(x, y), f"a {name} b")
        ctx.check(set(f(a, y)) == f(x, y), f"a {name} set")
    for name, f in {
        "<=": lambda p, q: p <= q,
        "<": lambda p, q: p < q,
        ">=": lambda p, q: p >= q,
        ">": lambda p, q: p > q,
        "==": lambda p, q: p == q,
        "!=": lambda p, q: p != q,
    }.items():
        ctx.check(bool(f(a, b)) == f(x, y), f"a {name} b")
        ctx.check(bool(f(a, y)) == f(x, y), f"a {name} set")
    ctx.check(bool(a.isdisjoint(b)) == x.isdisjoint(y), "isdisjoint")
    ctx.check(bool(a.isdisjoint(y)) == x.isdisjoint(y), "isdisjoint set")
    ctx.check(set(a.union(y, {UNKNOWN})) == x | y | {UNKNOWN}, "union")
    _see_set(ctx, a, x, K, "a afterwards")
    _see_set(ctx, b, y, K, "b afterwards")


def set_orders(ctx, n):
    """sets over differently numbered nodes are equal iff they have the same elements"""
    from graphblas_algorithms.classes.nodeset import NodeSet

    K, kid = _labels(n, "perm")
    out = []
    for name, order in (("a", list(range(n))), ("b", list(range(n))[::-1])):
        P = _decided(ctx, n, name)
        v = ctx._vector(name, n, "BOOL", dict(enumerate(P)), dict.fromkeys(range(n), True))
        ids = {K[i]: pos for pos, i in enumerate(order)}
        out.append((NodeSet(v, key_to_id=ids), {K[i] for pos, i in enumerate(order) if P[pos]}))
    (a, x), (b, y) = out
    ctx.check(bool(a == b) == (x == y), "a == b")
    ctx.check(bool(a <= b) == (x <= y), "a <= b")
    ctx.check(bool(a.isdisjoint(b)) == x.isdisjoint(y), "isdisjoint")
    ctx.check(set(a & b) == x & y, "a & b")


# ------------------------------------------------------------------ maps


def _same(ctx, a, b, label):
    """two values, possibly symbolic, possibly None or labels"""
    if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        ctx.check(type(a) is type(b) and a == b, f"{label}: {a!r} instead of {b!r}")
    else:
        ctx.check(T.eq(ctx.num(a), ctx.num(b)), label)


def _nodemap(ctx, n, keys, fill, vak, name="v"):
    """(NodeMap, dict with the same content, labels)"""
    from graphblas_algorithms.classes.nodemap import NodeMap

    K, kid = _labels(n, keys)
    P = _decided(ctx, n, name)
    if vak:
        ids = [ctx.choice(f"{name}.k{i}", list(range(n))) if P[i] else 0 for i in range(n)]
        W, M = ids, [K[i] for i in ids]
    else:
        W = [ctx.int(f"{name}.w{i}", -2, 3) for i in range(n)]
        M = [ctx.pyval(w) for w in W]
    v = ctx._vector(name, n, "INT64", dict(enumerate(P)), dict(enumerate(W)))
    m = NodeMap(v, key_to_id=kid, fill_value=fill, values_are_keys=vak)
    model = {K[i]: M[i] for i in range(n) if P[i]}
    if fill is not None:
        model = {k: model.get(k, fill) for k in K}
    return m, model, K


def _see_map(ctx, m, want, K, when, unknown=UNKNOWN):
    got = list(m)
    ctx.check(len(got) == len(set(got)), f"{when}: iteration repeats keys")
    ctx.check(set(got) == set(want), f"{when}: keys {got!r} instead of {sorted(map(str, want))}")
    ctx.check(int(len(m)) == len(want), f"{when}: len")
    ctx.check(bool(m) == bool(want), f"{when}: bool")
    for k in [*K, unknown]:
        ctx.check(bool(k in m) == (k in want), f"{when}: {k!r} in map")
        r = _outcome(lambda k=k: m[k])
        ctx.check((r[0] == "ok") == (k in want), f"{when}: map[{k!r}] {r[0]}")
        _same(ctx, m.get(k), want.get(k), f"{when}: get({k!r})")
        _same(ctx, m.get(k, 17), want.get(k, 17), f"{when}: get({k!r}, 17)")
        if k in want and r[0] == "ok":
            _same(ctx, r[1], want[k], f"{when}: map[{k!r}]")
    items = dict(m.items())
    ctx.check(set(items) == set(want), f"{when}: items")
    for k in want:
        if k in items:
            _same(ctx, items[k], want[k], f"{when}: items[{k!r}]")
    ctx.check(len(list(m.values())) == len(want), f"{when}: values")
    ctx.check(bool(m == dict(want)), f"{when}: == dict")
    more = dict(want)
    more[unknown] = 1
    ctx.check(not bool(m == more), f"{when}: == larger dict")


MAP_OPS = ("set", "del", "pop", "pop_default", "popitem", "setdefault", "update", "clear")


def _map_op(ctx, m, want, K, op, step, val, unknown=UNKNOWN):
    k = ctx.choice(f"key{step}", [*K, unknown]) if op not in ("popitem", "update", "clear") else None
    if op == "set":
        if k is unknown:
            return  # a label the map has no place for
        m[k] = val
        want[k] = val
    elif op == "del":
        a = _outcome(lambda: m.__delitem__(k))
        b = _outcome(lambda: want.__delitem__(k))
        ctx.check(a[0] == b[0], f"del [{k!r}]: {a[0]} instead of {b[0]}")
    elif op in ("pop", "pop_default"):
        d = () if op == "pop" else (18,)
        a, b = _outcome(lambda: m.pop(k, *d)), _outcome(lambda: want.pop(k, *d))
        ctx.check(a[0] == b[0], f"pop({k!r}): {a[0]} instead of {b[0]}")
        if a[0] == b[0] == "ok":
            _same(ctx, a[1], b[1], f"pop({k!r})")
    elif op == "popitem":
        a = _outcome(m.popitem)
        ctx.check((a[0] == "ok") == bool(want), f"popitem: {a[0]}")
        if a[0] == "ok":
            k, v = a[1]
            ctx.check(k in want, "popitem returned a key that was not there")
            if k in want:
                _same(ctx, v, want.pop(k), "popitem")
    elif op == "setdefault":
        if k is unknown:
            return
        _same(ctx, m.setdefault(k, val), want.setdefault(k, val), f"setdefault({k!r})")
    elif op == "update":
        m.update({K[0]: val, K[-1]: val})
        want.update({K[0]: val, K[-1]: val})
    elif op == "clear":
        m.clear()
        want.clear()


def map_history(ctx, n, ops, keys="perm", fill=None, vak=False):
    """NodeMap behaves as a dict after every operation"""
    m, want, K = _nodemap(ctx, n, keys, fill, vak)
    if len(ops) == 1:
        _see_map(ctx, m, want, K, "start")
    for step, op in enumerate(ops):
        val = ctx.choice(f"val{step}", K) if vak else ctx.pyval(ctx.int(f"val{step}", -2, 3))
        _map_op(ctx, m, want, K, op, step, val)
        _see_map(ctx, m, want, K, f"after {'/'.join(ops[: step + 1])}")


def map_equal(ctx, n, fill=(None, None)):
    """two maps are equal iff they have the same items"""
    a, x, K = _nodemap(ctx, n, "perm", fill[0], False, "a")
    b, y, _ = _nodemap(ctx, n, "perm", fill[1], False, "b")
    same = set(x) == set(y)
    eq = T.b_and(*[T.eq(ctx.num(x[k]), ctx.num(y[k])) for k in x]) if same else False
    ctx.check(T.b_iff(bool(a == b), eq), "a == b")
    ctx.check(T.b_iff(bool(a != b), T.b_not(eq)), "a != b")


def map_orders(ctx, n):
    """equality of maps over differently numbered nodes"""
    from graphblas_algorithms.classes.nodemap import NodeMap

    a, x, K = _nodemap(ctx, n, "perm", None, False, "a")
    P = _decided(ctx, n, "b")
    W = [ctx.int(f"b.w{i}", -2, 3) for i in range(n)]
    v = ctx._vector("b", n, "INT64", dict(enumerate(P)), dict(enumerate(W)))
    order = list(range(n))[::-1]
    b = NodeMap(v, key_to_id={K[i]: pos for pos, i in enumerate(order)})
    y = {K[i]: W[pos] for pos, i in enumerate(order) if P[pos]}
    eq = False
    if set(x) == set(y):
        eq = T.b_and(*[T.eq(ctx.num(x[k]), y[k]) for k in x])
    ctx.check(T.b_iff(bool(a == b), eq), "a == b")


# ---------------------------------------------------------- maps of maps


def _rows(ctx, n, keys, cls, fill=None, vak=False, ncols=None):
    K, kid = _labels(n, keys)
    nc = n if ncols is None else ncols
    P = {(i, j): ctx.decide(ctx.bool(f"M.p{i}.{j}")) for i in range(n) for j in range(nc)}
    if vak:
        W = {ij: ctx.choice(f"M.k{ij[0]}.{ij[1]}", list(range(n))) if P[ij] else 0 for ij in P}
        V = {ij: K[x] for ij, x in W.items()}
    else:
        W = {ij: ctx.int(f"M.w{ij[0]}.{ij[1]}", -2, 3) for ij in P}
        V = {ij: ctx.pyval(x) for ij, x in W.items()}
    A = ctx._matrix("M", n, nc, "INT64", P, W, None)
    from graphblas_algorithms.classes import nodemap

    if cls == "NodeNodeMap":
        m = nodemap.NodeNodeMap(A, fill_value=fill, values_are_keys=vak, key_to_id=kid)
        col = K
    else:
        m = nodemap.VectorNodeMap(A, key_to_id=kid)
        col = list(range(nc))
    model = {}
    for i in range(n):
        row = {col[j]: V[i, j] for j in range(nc) if P[i, j]}
        if fill is not None:
            row = {c: row.get(c, fill) for c in col}
        if row:
            model[K[i]] = row
    return m, model, K, col


def _see_rows(ctx, m, want, K, col, when, deep=True):
    got = list(m)
    ctx.check(len(got) == len(set(got)), f"{when}: iteration repeats keys")
    ctx.check(set(got) == set(want), f"{when}: keys")
    ctx.check(int(len(m)) == len(want), f"{when}: len")
    for k in [*K, UNKNOWN]:
        ctx.check(bool(k in m) == (k in want), f"{when}: {k!r} in map")
        r = _outcome(lambda k=k: m[k])
        ctx.check((r[0] == "ok") == (k in want), f"{when}: map[{k!r}] {r[0]}")
        if k in want and r[0] == "ok":
            _see_map(ctx, r[1], want[k], col, f"{when}: [{k!r}]", "x")
        g = m.get(k)
        ctx.check((g is not None) == (k in want), f"{when}: get({k!r})")
        if g is not None and k in want:
            ctx.check(bool(g == dict(want[k])), f"{when}: get({k!r}) is another row")
        if k not in want:
            ctx.check(m.get(k, 17) == 17, f"{when}: get({k!r}, 17)")
    ctx.check(set(dict(m.items())) == set(want), f"{when}: items")
    ctx.check(bool(m == {k: dict(r) for k, r in want.items()}), f"{when}: == dict of dicts")


ROW_OPS = ("set", "del", "pop", "popitem", "clear", "none")


def rows_history(ctx, n, cls, ops, keys="perm", fill=None, vak=False, ncols=None):
    """NodeNodeMap and VectorNodeMap behave as dicts of dicts after every operation"""
    m, want, K, col = _rows(ctx, n, keys, cls, fill, vak, ncols)
    if ops[0] == "none" or (len(ops) > 1 and ops[0] != "popitem"):  # also without having looked
        _see_rows(ctx, m, want, K, col, "start")
    for step, op in enumerate(ops):
        when = f"after {'/'.join(ops[: step + 1])}"
        if op == "set":
            k = ctx.choice(f"key{step}", K)
            cols = ctx.choice(f"cols{step}", [(), tuple(col[-1:]), tuple(col)])
            val = ctx.choice(f"val{step}", K) if vak else ctx.pyval(ctx.int(f"val{step}", -2, 3))
            row = dict.fromkeys(cols, val)
            m[k] = dict(row)
            if fill is not None:
                row = {c: row.get(c, fill) for c in col}
            want.pop(k, None)
            if row:
                want[k] = row
        elif op in ("del", "pop"):
            k = ctx.choice(f"key{step}", [*K, UNKNOWN])
            if op == "del":
                a, b = _outcome(lambda: m.__delitem__(k)), _outcome(lambda: want.__delitem__(k))
            else:
                a, b = _outcome(lambda: m.pop(k)), _outcome(lambda: want.pop(k))
                if a[0] == b[0] == "ok":
                    ctx.check(bool(a[1] == dict(b[1])), f"pop({k!r})")
            ctx.check(a[0] == b[0], f"{op} {k!r}: {a[0]} instead of {b[0]}")
        elif op == "popitem":
            a = _outcome(m.popitem)
            ctx.check((a[0] == "ok") == bool(want), f"popitem: {a[0]}")
            if a[0] == "ok":
                k, r = a[1]
                ctx.check(k in want, "popitem returned a key that was not there")
                if k in want:
                    ctx.check(bool(r == dict(want.pop(k))), "popitem: another row")
        elif op == "clear":
            m.clear()
            want.clear()
        _see_rows(ctx, m, want, K, col, when)


def defaults(ctx, n):
    """without labels, nodes are 0, 1, .. n-1"""
    from graphblas_algorithms.classes import nodemap
    from graphblas_algorithms.classes.nodeset import NodeSet

    P = _decided(ctx, n, "v")
    W = [ctx.int(f"v.w{i}", -2, 3) for i in range(n)]
    v = ctx._vector("v", n, "INT64", dict(enumerate(P)), dict(enumerate(W)))
    here = {i for i in range(n) if P[i]}
    _see_set(ctx, NodeSet(v), here, list(range(n)), "set")
    model = {i: ctx.pyval(W[i]) for i in here}
    _see_map(ctx, nodemap.NodeMap(v), model, list(range(n)), "map")
    A = ctx._matrix(
        "M", n, n, "INT64",
        {(i, j): P[j] and i == 0 for i in range(n) for j in range(n)},
        {(i, j): W[j] for i in range(n) for j in range(n)}, None,
    )
    rows = {0: model} if model else {}
    for cls in (nodemap.NodeNodeMap, nodemap.VectorNodeMap):
        _see_rows(ctx, cls(A), rows, list(range(n)), list(range(n)), cls.__name__)


BOUNDS = (
    "sets and maps over 1-3 nodes (maps of maps 2x2, 2x3), every subset of present elements, every "
    "value in -2..3 (or every node as a value), with and without fill value, permuted and string "
    "labels; every sequence of 1-2 operations, with every argument (unknown labels included)"
)
OUTSIDE = (
    "storing labels that are not nodes (raises KeyError), writing through a row of a map of maps "
    "(rows are copies), iteration order, deleting single rows of maps of maps with a fill value"
)


def instances(tier):
    q = tier == "quick"
    out = []
    add = lambda *a, **k: out.append(Inst(*a, **k))  # noqa: E731
    for a in SET_OPS:
        for b in SET_OPS:
            if a == "none" or b == "none":
                continue
            add("set_history", n=2 if q else 3, ops=[a, b])
        add("set_history", n=3, ops=[a], keys="rev")
    for n in (1, 2, 3):
        add("set_algebra", n=n, keys="rev" if n == 2 else "perm")
        add("set_orders", n=n)
        add("map_orders", n=n)
        add("defaults", n=n)
    for f in ((None, None), (0, 0), (0, None), (None, 1), (0, 1)):
        add("map_equal", n=2, fill=f)
    for a in MAP_OPS:
        for fill, vak in ((None, False), (0, False), (2, False), (None, True)):
            add("map_history", n=3 if not vak else 2, ops=[a], fill=fill, vak=vak, keys="rev" if fill is None else "perm")
            for b in MAP_OPS:
                if not vak and fill in (None, 0):
                    add("map_history", n=2, ops=[a, b], fill=fill, vak=vak)
    for cls in ("NodeNodeMap", "VectorNodeMap"):
        for a in ROW_OPS:
            add("rows_history", n=2, cls=cls, ops=[a])
            if cls == "NodeNodeMap":
                add("rows_history", n=2, cls=cls, ops=[a], keys="rev", vak=a in ("none", "set"))
                if a in ("set", "clear", "none"):
                    add("rows_history", n=2, cls=cls, ops=[a], fill=0)
            else:
                add("rows_history", n=2, cls=cls, ops=[a], keys="rev", ncols=1 if a == "set" and q else 3)
            for b in ROW_OPS:
                if a == "none" or b == "none" or (q and "set" not in (a, b)):
                    continue
                if a == b == "set":
                    if not q:
                        add("rows_history", n=2, cls=cls, ops=[a, b], shards=4)
                elif cls == "NodeNodeMap" or b != "set" or not q:
                    add("rows_history", n=2, cls=cls, ops=[a, b])
    return out
