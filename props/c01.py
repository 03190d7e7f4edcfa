"""Whatever was asked of a graph before, the next answer is the same."""

import copy

from symgb import terms as T

from . import api
from .spec import Inst, count

MASKABLE = {
    "diag", "count_rowwise+", "count_rowwise-", "count_columnwise+", "count_columnwise-",
    "plus_rowwise+", "plus_rowwise-", "plus_columnwise+", "plus_columnwise-", "recip_degrees+",
    "recip_degrees-", "total_degrees+", "total_degrees-",
}
BOTH = [
    "AT", "offdiag", "U+", "U-", "L+", "L-", "diag", "count_rowwise+", "count_rowwise-",
    "plus_rowwise+", "plus_rowwise-", "min_element+", "min_element-", "min_diagonal",
    "has_negative_diagonal", "has_negative_edges+", "has_negative_edges-", "has_self_edges",
    "iso_value", "is_iso",
]
MORE = ["max_element-", "max_element+", "plus_element+", "plus_element-", "max_diagonal", "degrees+", "degrees-",
        "row_degrees+", "column_degrees-"]
DIRECTED = [
    "count_columnwise+", "count_columnwise-", "plus_columnwise+", "plus_columnwise-",
    "recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+",
    "total_recip-",
]
ALIAS = {
    "degrees+": "count_rowwise+", "degrees-": "count_rowwise-", "row_degrees+": "count_rowwise+",
    "row_degrees-": "count_rowwise-", "column_degrees+": "count_columnwise+",
    "column_degrees-": "count_columnwise-",
}


def _fold(op, items):
    """(present, value) of a reduction of [(present, value)]"""
    here, acc = False, None
    for p, v in items:
        if p is False:
            continue
        if here is False:
            here, acc = p, v
            continue
        both = {"plus": T.add, "min": T.min_, "max": T.max_}[op](acc, v)
        acc = T.if_(T.b_and(here, p), both, T.if_(p, v, acc))
        here = T.b_or(here, p)
    return here, acc


def definition(g, name):
    """("vec"|"mat", {...}) | ("scalar", (p, v)) | ("bool", c) from the graph's edges"""
    n = g.n
    name = ALIAS.get(name, name)
    cell = {(i, j): (g.p(i, j), g.w(i, j)) for i in range(n) for j in range(n)}
    sign = name[-1]
    if not g.directed:
        name = name.replace("columnwise", "rowwise")

    def on(i, j):
        return sign != "-" or i != j

    if name in ("A", "AT"):
        return "mat", {(i, j): cell[(i, j) if name == "A" else (j, i)] for i, j in cell}
    if name == "offdiag":
        return "mat", {(i, j): cell[i, j] for i, j in cell if i != j}
    if name in ("U+", "U-", "L+", "L-"):
        side = (lambda i, j: i <= j) if name[0] == "U" else (lambda i, j: i >= j)
        return "mat", {(i, j): cell[i, j] for i, j in cell if on(i, j) and side(i, j)}
    if name == "diag":
        return "vec", {i: cell[i, i] for i in range(n)}
    for kind in ("rowwise", "columnwise"):
        if f"_{kind}" in name:
            op = name[: name.index("_")]
            out = {}
            for a in range(n):
                row = [(i, j) for i, j in cell if (i if kind == "rowwise" else j) == a and on(i, j)]
                if op == "count":
                    c = count([cell[ij][0] for ij in row])
                    out[a] = (T.lt(0, c), c)
                else:
                    out[a] = _fold(op, [cell[ij] for ij in row])
            return "vec", out
    if "_element" in name:
        return "scalar", _fold(name[:3] if name[:4] != "plus" else "plus", [cell[ij] for ij in cell if on(*ij)])
    if name.endswith("_diagonal") and name != "has_negative_diagonal":
        return "scalar", _fold(name[:3], [cell[i, i] for i in range(n)])
    neg = {ij: T.b_and(p, T.lt(v, 0)) for ij, (p, v) in cell.items()} if g.dtype != "BOOL" else {}
    if name == "has_negative_diagonal":
        return "bool", T.b_or(*[neg[ij] for ij in neg if ij[0] == ij[1]])
    if name.startswith("has_negative_edges"):
        return "bool", T.b_or(*[neg[ij] for ij in neg if on(*ij)])
    if name == "has_self_edges":
        return "bool", T.b_or(*[cell[i, i][0] for i in range(n)])
    rec = {(i, j): T.b_and(cell[i, j][0], cell[j, i][0]) for i, j in cell if on(i, j)}
    if name.startswith("recip_degrees"):
        out = {}
        for a in range(n):
            c = count([rec[ij] for ij in rec if ij[0] == a])
            out[a] = (T.lt(0, c), c)
        return "vec", out
    if name.startswith("total_degrees"):
        out = {}
        for a in range(n):
            c = count([cell[ij][0] for ij in cell if ij[0] == a and on(*ij)])
            c = T.add(c, count([cell[ij][0] for ij in cell if ij[1] == a and on(*ij)]))
            out[a] = (T.lt(0, c), c)
        return "vec", out
    if name.startswith("total_recip"):
        return "num", count([rec[ij] for ij in rec])
    raise KeyError(name)


def _check(ctx, g, name, got, label, mask=None):
    if name in ("is_iso", "iso_value"):
        # the matrix may or may not be stored with a single value; if it claims so, it is true
        v = g.G.get_property("iso_value") if name == "is_iso" else got
        claims = bool(got) if name == "is_iso" else got is not None
        if name == "is_iso":
            ctx.check(claims == (v is not None), f"{label}: agrees with iso_value")
        if v is not None:
            x = ctx.num(v.value if hasattr(v, "value") else v)
            some = []
            for i in range(g.n):
                for j in range(g.n):
                    some.append(g.p(i, j))
                    ctx.check(T.b_or(T.b_not(g.p(i, j)), T.eq(g.w(i, j), x)), f"{label}: value")
            ctx.check(T.b_or(*some), f"{label}: there is an edge")
        return
    kind, want = definition(g, name)
    if kind in ("vec", "mat"):
        have = (ctx.vec if kind == "vec" else ctx.mat)(got)
        for k in set(have) | set(want):
            p, v = have.get(k, (False, None))
            q, w = want.get(k, (False, None))
            if mask is not None:
                q = T.b_and(q, mask[k])
            ctx.check(T.b_iff(p, q), f"{label}[{k}]: presence")
            both = T.b_and(p, q)
            if both is not False:
                ctx.check(T.b_or(T.b_not(both), T.eq(v, w)), f"{label}[{k}]: value")
    elif kind == "scalar":
        v = got.value if hasattr(got, "value") else got
        p, w = want
        ctx.check(T.b_iff(v is not None, p), f"{label}: presence")
        if v is not None and p is not False:
            ctx.check(T.b_or(T.b_not(p), T.eq(ctx.num(v), w)), f"{label}: value")
    elif kind == "num":
        v = got.value if hasattr(got, "value") else got
        ctx.check(T.eq(ctx.num(v), want), label)
    else:
        ctx.check(T.b_iff(bool(got), want), label)


def _ask(ctx, g, name, mask, label):
    if name.endswith("*"):  # masked
        mv, mp = mask
        got = g.G.get_property(name[:-1], mask=mv.S)
        _check(ctx, g, name[:-1], got, label, mp)
    else:
        _check(ctx, g, name, g.G.get_property(name), label)


def _graph(ctx, n, directed, dtype, loops=True):
    w = {"INT64": ("int", -1, 1), "FP64": ("real", -2, 2), "BOOL": ("bool",)}[dtype]
    return ctx.graph("A", n, directed=directed, dtype=dtype, weight=w, keys="perm", loops=loops, iso=None)


def _names(directed, tier):
    names = list(BOTH) + (DIRECTED if directed else [])
    return names + [x + "*" for x in names if x in MASKABLE]


def properties(ctx, n, directed, first, then, dtype="INT64", loops=True):
    """a property of the graph does not depend on what was asked before"""
    g = _graph(ctx, n, directed, dtype, loops)
    mask = None
    names = [*first, ctx.choice("next", then)]
    if any(x.endswith("*") for x in names):
        mp = {i: ctx.bool(f"mask{i}") for i in range(n)}
        mask = ctx._vector("mask", n, "BOOL", mp, dict.fromkeys(range(n), True)), mp
    for k, x in enumerate(names):
        _ask(ctx, g, x, mask, "/".join(names[: k + 1]))
    _check(ctx, g, "A", g.G._A, f"the graph after {'/'.join(names)}")


def _second(ctx, c, n, directed, *calls, dtype=None):
    if not c.second:
        return None
    apart = any(x in ("union", "full_join") for x in calls)
    return api.graph(ctx, c, n, directed, "B", "str" if apart else "perm", dtype)


def after(ctx, call, n, directed, then, dtype=None):
    """any call leaves the graph, and everything that is known about it, as it was"""
    c = api.CALLS[call]
    g = api.graph(ctx, c, n, directed, dtype=dtype)
    h = _second(ctx, c, n, directed, call, dtype=dtype)
    keys = list(g.G)
    api.run(ctx, call, g, h)
    for x in then:
        _check(ctx, g, x, g.G.get_property(x), f"{x} after {call}")
    _check(ctx, g, "A", g.G._A, f"the graph after {call}")
    ctx.check(list(g.G) == keys, f"labels after {call}")
    if h is not None:
        for x in then[:1]:
            _check(ctx, h, x, h.G.get_property(x), f"{x} of the second graph after {call}")
        _check(ctx, h, "A", h.G._A, f"the second graph after {call}")


def _fresh(ctx, g):
    if g is None:
        return None
    out = copy.copy(g)
    out.G = ctx.clone(g)
    return out


def calls(ctx, first, then, n, directed):
    """a call answers as on a graph that was never asked anything"""
    second = ctx.choice("second", then)
    c = api.both(api.CALLS[first], api.CALLS[second])
    g = api.graph(ctx, c, n, directed)
    h = _second(ctx, c, n, directed, first, second)
    g2, h2 = _fresh(ctx, g), _fresh(ctx, h)
    api.run(ctx, first, g, h)
    got, _ = api.run(ctx, second, g, h)
    want, _ = api.run(ctx, second, g2, h2)
    api.same(ctx, got, want, f"{second} after {first}")


BOUNDS = (
    "every pair of property requests, and triples over the requests that store state, on every graph "
    "with two nodes (thorough: triples over more requests, three nodes, FP64 and BOOL); INT64 weights -1..1"
)
OUTSIDE = "properties requested with a dtype; sequences longer than three"

FAMILY = [
    "transitivity", "clustering", "clustering_w", "average_clustering", "average_clustering_w",
    "average_clustering_nz", "average_clustering_w_nz", "average_clustering_nodes", "triangles",
    "square_clustering", "overall_reciprocity", "reciprocity", "is_connected", "k_truss",
]
STATE = ["AT", "offdiag", "U+", "L-", "diag", "min_element-", "min_diagonal", "has_negative_edges+",
         "has_negative_edges-", "has_self_edges", "count_rowwise+", "iso_value"]
DSTATE = ["AT", "offdiag", "count_columnwise+", "total_degrees+", "total_degrees-", "recip_degrees-",
          "min_element-", "has_self_edges", "has_negative_edges-", "count_rowwise-"]
# what is computed from two of these differs from what is computed from the edges
GROUPS = [["U+", "U-", "L+", "L-", "offdiag"]]
DGROUPS = [
    ["recip_degrees+", "recip_degrees-", "total_recip+", "total_recip-"],
    ["total_degrees+", "total_degrees-", "count_rowwise+", "count_rowwise-", "count_columnwise-"],
    ["count_columnwise+", "count_columnwise-", "count_rowwise+"],
    ["has_negative_edges+", "has_negative_edges-", "has_negative_diagonal", "min_element+"],
]
VALUED = ["plus_rowwise-", "plus_rowwise+", "min_element-", "has_negative_edges-"]


def instances(tier):
    q = tier == "quick"
    out = []
    for d in (False, True):
        names = _names(d, tier)
        if not q:
            names = names + MORE
        for a in names:
            out.append(Inst("properties", n=2, directed=d, first=[a], then=names))
        state = DSTATE if d else STATE
        if not q:
            state = list(dict.fromkeys(STATE + DSTATE + ["has_negative_diagonal"])) if d else [*STATE, "has_negative_diagonal", "U-", "L+"]
        state_pairs = {(a, b) for a in state for b in state}
        for group in GROUPS + (DGROUPS if d else []):
            for a in group:
                for b in group:
                    if a != b and (a, b) not in state_pairs:
                        state_pairs.add((a, b))
                        out.append(Inst("properties", n=2, directed=d, first=[a, b],
                                        then=list(dict.fromkeys([*group, "has_self_edges", "offdiag", "diag"]))))
        last = names if not q else [x for x in names if not x.endswith("*")]
        for a in state:
            for b in state:
                if a != b:
                    out.append(Inst("properties", n=2, directed=d, first=[a, b], then=last))
        if not q:
            for a in names:
                out.append(Inst("properties", n=3, directed=d, first=[a], then=state))
                for dtype in ("FP64", "BOOL"):
                    if dtype == "BOOL" and a[:4] in ("min_", "max_", "plus"):
                        continue
                    out.append(Inst("properties", n=2, directed=d, first=[a], dtype=dtype,
                                    then=[x for x in names if dtype != "BOOL" or x[:4] not in ("min_", "max_", "plus")]))
    for call, c in api.CALLS.items():
        for d in (False, True):
            if "ud"[d] in c.kinds:
                names = [x for x in _names(d, tier) if not x.endswith("*")]
                for k in range(0, len(names), 4):
                    out.append(Inst("after", call=call, n=2, directed=d, then=names[k : k + 4]))
                    if c.w != "w18" and (not q or k == 0):
                        out.append(Inst("after", call=call, n=2, directed=d, dtype="FP64", then=names[k : k + 4] if not q else VALUED))
    # the same call twice, and calls of one family after each other
    for d in (False, True):
        count_like = [x for x in _names(d, tier) if x[-1] != "*" and not x.startswith(("min", "has", "is", "iso"))]
        for a in count_like:
            out.append(Inst("properties", n=132 if q else 264, directed=d, first=[a], then=count_like if d else count_like[:1], shape="Star"))
        names = [x for x, c in api.CALLS.items() if "ud"[d] in c.kinds]
        for a in names:
            out.append(Inst("calls", first=a, then=[a], n=2, directed=d))
            fam = [x for x in FAMILY if x in names]
            if a in fam:
                for k in range(0, len(fam), 4):
                    out.append(Inst("calls", first=a, then=fam[k : k + 4], n=3, directed=d))
            if not q:
                for k in range(0, len(names), 10):
                    out.append(Inst("calls", first=a, then=names[k : k + 10], n=2, directed=d))
    return out
