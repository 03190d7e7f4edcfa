"""Results and arguments are independent objects: changing or using one changes nothing else."""

from symgb.harness import GraphIn

from . import api
from .c01 import _check, _names, _second
from .spec import Inst


def _untouched(ctx, g, keys, names, label):
    for x in names:
        _check(ctx, g, x, g.G.get_property(x), f"{x} {label}")
    _check(ctx, g, "A", g.G._A, f"the graph {label}")
    ctx.check(list(g.G) == keys, f"labels {label}")


def detached(ctx, call, n, directed, then, dtype=None):
    """the caller may change everything a call returns"""
    c = api.CALLS[call]
    g = api.graph(ctx, c, n, directed, dtype=dtype)
    h = _second(ctx, c, n, directed, call, dtype=dtype)
    keys = list(g.G)
    hkeys = list(h.G) if h is not None else None
    args = api.Args()
    first, r1 = api.run(ctx, call, g, h, args)
    args.check(ctx, f"{call} changed its")
    second, r2 = api.run(ctx, call, g, h)
    api.same(ctx, second, first, f"{call} again")
    api.spoil(r1)
    if r2 is not None:
        api.same(ctx, api.observe(ctx, r2), second, f"the second answer of {call} after changing the first")
    _untouched(ctx, g, keys, then, f"after changing the answer of {call}")
    if h is not None:
        _untouched(ctx, h, hkeys, then[:1], f"(second graph) after changing the answer of {call}")
    third, _ = api.run(ctx, call, g, h)
    api.same(ctx, third, first, f"{call} after changing its first answer")
    args.check(ctx, f"changing the answer of {call} changed its")


GRAPHS = ("complement", "reverse", "to_undirected", "to_undirected_r", "ego_graph", "ego_graph_nc",
          "ego_graph_u", "k_truss", "k_truss2", "union", "disjoint_union", "intersection",
          "difference", "symmetric_difference", "compose", "full_join")


def _view(ctx, R):
    kid = dict(R._key_to_id)
    n = len(kid)
    m = ctx.mat(R._A)
    K = [None] * n
    for k, i in kid.items():
        K[i] = k
    cells = [(i, j) for i in range(n) for j in range(n)]
    P = {ij: m.get(ij, (False, 0))[0] for ij in cells}
    W = {ij: m.get(ij, (False, 0))[1] for ij in cells}
    dt = {"BOOL": "BOOL", "FP64": "FP64", "FP32": "FP64"}.get(R._A.dtype.name, "INT64")
    return GraphIn(R, n, R.is_directed(), P, W, K, dt)


def derived(ctx, call, n, directed, first, then):
    """a graph made from another one has its own (and right) properties, and keeps out of the other's"""
    c = api.CALLS[call]
    g = api.graph(ctx, c, n, directed)
    h = _second(ctx, c, n, directed, call)
    keys = list(g.G)
    x = ctx.choice("first", first)
    g.G.get_property(x)
    _, R = api.run(ctx, call, g, h)
    if R is not None:
        r = _view(ctx, R)
        for y in then:
            if y in _names(r.directed, "quick") and not (r.dtype == "BOOL" and y[:4] in ("min_", "plus")):
                _check(ctx, r, y, R.get_property(y), f"{y} of {call} after {x}")
        _untouched(ctx, g, keys, then, f"after using {call} after {x}")


BOUNDS = (
    "every call of the catalog (all public functions) on every graph with two nodes (three for the "
    "thorough tier), stored values within the stated ranges, two of the nodes as arguments"
)
OUTSIDE = "the matrix handed to Graph()/DiGraph() and get_property results are shared by design; reverse(copy=False)"


def instances(tier):
    q = tier == "quick"
    out = []
    for call, c in api.CALLS.items():
        for d in (False, True):
            if "ud"[d] not in c.kinds:
                continue
            names = [x for x in _names(d, tier) if not x.endswith("*")]
            groups = [names[k : k + 8] for k in range(0, len(names), 8)]
            for grp in groups if not q else groups[:1] + groups[2:3]:
                out.append(Inst("detached", call=call, n=2, directed=d, then=grp))
            if c.w != "w18":
                out.append(Inst("detached", call=call, n=2, directed=d, then=groups[0][:4], dtype="FP64"))
            if not q and c.cap > 2:
                out.append(Inst("detached", call=call, n=3, directed=d, then=["AT"]))
            if call in GRAPHS:
                state = ["A", "AT", "offdiag", "min_element-", "has_self_edges", "iso_value", "U+", "has_negative_edges-"]
                for a in range(0, len(state), 4):
                    for k in range(0, len(names), 4):
                        out.append(Inst("derived", call=call, n=2, directed=d, first=state[a : a + 4], then=names[k : k + 4]))
    return out
