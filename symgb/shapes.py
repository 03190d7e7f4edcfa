"""Families of edge sets: a graph may have any subset of the edges of its shape.

Free edge sets are out of reach beyond a handful of nodes; a shape keeps few edges free, so that
longer iterations (many rounds of relaxation, deep searches, cascades) are explored as well.
``name+`` also leaves the self-edges free, ``name~`` scrambles the positions of the nodes.
"""

import math

SHAPES = {
    "path": lambda n: {(i, i + 1) for i in range(n - 1)},
    "ring": lambda n: {(i, (i + 1) % n) for i in range(n)},
    "lasso": lambda n: {(i, i + 1) for i in range(n - 1)} | {(n - 1, n // 2)},
    "ladder": lambda n: {(i, i + 1) for i in range(n - 1)} | {(i, i + 2) for i in range(n - 2)},
    "back": lambda n: {(i, i + 1) for i in range(n - 1)} | {(i, i - 2) for i in range(2, n)},
    "dag": lambda n: {(i, j) for i in range(n) for j in range(i + 1, n)},
    # a binary tree, edges from the root
    "tree": lambda n: {((i - 1) // 2, i) for i in range(1, n)},
    # a binary tree, edges to the root, which points to the last node
    "intree": lambda n: {(i, (i - 1) // 2) for i in range(1, n)} | {(0, n - 1)},
    # two hubs
    "hubs": lambda n: {(h, i) for h in (0, 1) for i in range(2, n)},
    # a wheel: hub 0, the others in a ring
    "wheel": lambda n: {(0, i) for i in range(1, n)} | {(i, i % (n - 1) + 1) for i in range(1, n)},
    # two cliques of half the nodes, joined by one edge
    "cliques": lambda n: {(i, j) for i in range(n) for j in range(i + 1, n) if (i < n // 2) == (j < n // 2)} | {(n // 2 - 1, n // 2)},
    # 2 x k grid
    "grid": lambda n: {(i, i + 2) for i in range(n - 2)} | {(i, i + 1) for i in range(0, n - 1, 2)},
}

# many nodes, nearly all edges are there: name -> (edges, those that are free). For counts and lengths
# beyond 127 (and 255); the values of the fixed edges are 1.
BULK = {
    # two hubs joined by the spine, and pages in n - 2 triangles
    "Book": lambda n: ({(0, 1)} | {(h, i) for h in (0, 1) for i in range(2, n)}, {(0, 1), (1, 2)}),
    # two hubs with n - 2 common neighbours
    "Pair": lambda n: ({(h, i) for h in (0, 1) for i in range(2, n)}, {(1, 2)}),
    # a hub with edges from and to everyone
    "Star": lambda n: ({(0, i) for i in range(1, n)} | {(i, 0) for i in range(1, n)}, {(0, 1), (2, 0)}),
    "Path": lambda n: ({(i, i + 1) for i in range(n - 1)}, {(2, 3), (n - 3, n - 2)}),
}


def edges(shape, n):
    """the pairs (i, j) that may be edges"""
    name = shape.rstrip("+~")
    out = set(SHAPES[name](n))
    if "~" in shape:
        k = next(k for k in (5, 3, 7, 2, 1) if math.gcd(k, n) == 1 and k < n)
        out = {((k * i + 1) % n, (k * j + 1) % n) for i, j in out}
    if "+" in shape:
        out |= {(i, i) for i in range(n)}
    return out


def bounds(instances):
    """what the instances with a shape add to the stated bounds"""
    used = {}
    for inst in instances:
        s = inst.params.get("shape")
        if s:
            n = inst.params.get("n", 0)
            a, b = used.get(s, (n, n))
            used[s] = min(a, n), max(b, n)
    if not used:
        return ""
    return "; larger graphs with any subset of the edges of a shape (symgb/shapes.py; + with self-edges, ~ scrambled; capitalised: two edges free, the others there): " + ", ".join(
        f"{s} on {a} nodes" if a == b else f"{s} on {a} to {b} nodes" for s, (a, b) in used.items()
    )


def present(shape, n, directed, free=None):
    """which edges may be there; those of the shape as ``free`` says"""
    if shape in BULK:
        E, loose = BULK[shape](n)

        def f(i, j):
            if (i, j) in loose or (not directed and (j, i) in loose):
                return None if free is None else free(i, j)
            return (i, j) in E or (not directed and (j, i) in E)

        return f
    E = edges(shape, n)

    def f(i, j):
        if (i, j) in E or (not directed and (j, i) in E):
            return None if free is None else free(i, j)
        return False

    return f
