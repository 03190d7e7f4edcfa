#!/usr/bin/env python3
"""Mutation testing of the checks (not part of any check).

mutate.py list [FILE...]                      counts the mutants of /repo's files
mutate.py run OUT.jsonl [--jobs N] [--sample K] [--seed S] [FILE...]

For each mutant (in a copy of /repo under /tmp/mutw): the stable tests, stopping at the first
failure; a mutant that survives them is given to the quick checks of the properties anchored in the
file, stopping at the first that reports a violation.  OUT.jsonl: one line per mutant."""

import ast
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import threading
import time
from queue import Empty, Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
    MPLBACKEND="Agg",
)
PKG = "graphblas_algorithms"

CMP = {
    ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="],
    ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"],
}
BIN = {
    ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.BitOr: ["&"],
    ast.BitAnd: ["|"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Pow: ["*"], ast.MatMult: [],
}
NAMES = {
    "plus_pair": ["lor_pair", "any_pair", "plus_first", "plus_second"], "plus_first": ["plus_second", "plus_pair", "plus_times"],
    "plus_second": ["plus_first", "plus_pair"], "plus_times": ["plus_first", "plus_second"],
    "any_pair": ["any_first"], "min_plus": ["max_plus", "min_first"], "max_plus": ["min_plus"], "min_max": ["max_min"],
    "min": ["max"], "max": ["min"], "plus": ["max"], "times": ["plus"], "first": ["second"], "second": ["first"],
    "lor": ["land"], "land": ["lor"], "any": ["plus"], "tril": ["triu"], "triu": ["tril"], "offdiag": ["diag"],
    "diag": ["offdiag"], "lt": ["le"], "le": ["lt"], "gt": ["ge"], "ge": ["gt"], "eq": ["ne"], "ne": ["eq"],
    "S": ["V"], "V": ["S"], "reduce_rowwise": ["reduce_columnwise"], "reduce_columnwise": ["reduce_rowwise"],
    "nrows": ["ncols"], "ncols": ["nrows"], "ewise_add": ["ewise_mult"], "ewise_mult": ["ewise_add"],
    "is_directed": [], "lxor": ["lor"], "minus": ["plus"], "truediv": ["times"], "rminus": ["minus"],
    "rowscale": ["colscale"], "nonzero": [], "abs": [], "secondi": ["firsti"], "any_secondi": ["any_firsti"],
    "min_firsti": ["max_firsti", "min_secondi"], "min_secondi": ["max_secondi"], "valuene": ["valueeq"],
    "valuegt": ["valuege"], "valuelt": ["valuele"], "iterkeys": [], "row_degrees": ["column_degrees"],
    "pair": ["first"], "exactly_one": [], "zip": [],
}
PROP_SUFFIX = {"+": "-", "-": "+"}


def mutants(src):
    """(lineno, description, start, end, replacement) over character offsets"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for line in lines:
        off.append(off[-1] + len(line.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what, span=None):
        s, e = span or pos(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, what, s, e, new))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            f = n.body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
                docs.add(f.value)
                docs.add(f)
    infun, defaults = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                if m is not n:
                    infun.add(m)
            for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x]]:
                defaults.update(ast.walk(d))
    for n in ast.walk(tree):
        if n not in infun or n in docs or n in defaults:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, f"{text(n.left)} {o} {text(n.right)}", "bin")
            if isinstance(n.op, ast.MatMult):
                add(n, f"{text(n.right)} @ {text(n.left)}", "swap@")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({text(v)})" for v in n.values) + ")", "bool")
            for v in n.values:
                rest = [x for x in n.values if x is not v]
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o2.join(f"({text(x)})" for x in rest) + ")", "drop-operand")
        elif isinstance(n, ast.UnaryOp) and not isinstance(n.operand, ast.Constant):
            add(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, repr(v + 1), "const")
            elif isinstance(v, str) and v and v[-1] in PROP_SUFFIX and len(v) < 40:
                add(n, repr(v[:-1] + PROP_SUFFIX[v[-1]]), "prop")
            elif isinstance(v, str) and v in ("A", "AT", "offdiag", "U-", "L-", "U+", "L+"):
                for w in ("A", "offdiag"):
                    if w != v:
                        add(n, repr(w), "prop")
        elif isinstance(n, ast.Attribute):
            s, e = pos(n)
            vs, ve = pos(n.value)
            for w in NAMES.get(n.attr, []):
                add(n, f"{text(n.value)}.{w}", "name")
            if n.attr == "T":
                add(n, text(n.value), "drop.T")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for w in NAMES.get(n.id, []):
                if w in src:
                    add(n, w, "name")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                rest = [text(a) for a in n.args] + [text(x) for x in n.keywords if x is not k]
                add(n, f"{text(n.func)}({', '.join(rest)})", f"drop-kw {k.arg}")
            if len(n.args) == 2:
                kw = [text(x) for x in n.keywords]
                add(n, f"{text(n.func)}({', '.join([text(n.args[1]), text(n.args[0]), *kw])})", "swap-args")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True" if not isinstance(n, ast.While) else "False", "cond")
            if not isinstance(n, ast.While):
                add(n.test, "False", "cond")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Assign) and not (len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            # x = f(x, ...) : dropping it keeps the old x
            t = n.targets[0].id
            if any(isinstance(m, ast.Name) and m.id == t for m in ast.walk(n.value)):
                add(n, "pass", "drop-stmt")
    # another default of a parameter
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in [*n.args.defaults, *[x for x in n.args.kw_defaults if x]]:
                t = text(d)
                for w in {"True": ["False"], "False": ["True"], "None": ["1", "'weight'"]}.get(t, []):
                    add(d, w, "default")
                if t[0] in "'\"":
                    add(d, "None", "default")
                    add(d, "'other'", "default")
                elif t[0].isdigit():
                    add(d, f"{t} + 1", "default")
    # q(mask, replace) << expr : drop the mask / the accumulator
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.LShift) and isinstance(n.left, ast.Call):
            c = n.left
            if not isinstance(c.func, ast.Attribute) or True:
                if len(c.args) + len(c.keywords) == 1:
                    add(n, f"{text(c.func)} << {text(n.right)}", "drop-mask")
                for a in c.args:
                    rest = [text(x) for x in c.args if x is not a] + [text(x) for x in c.keywords]
                    if rest:
                        add(n, f"{text(c.func)}({', '.join(rest)}) << {text(n.right)}", "drop-mask")
    res, seen = [], set()
    for ln, what, s, e, new in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen:
            continue
        seen.add(m)
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((ln, what, b[s:e].decode(), new, m))
    return res


def files():
    out = []
    for d, _, fs in os.walk(f"/repo/{PKG}"):
        if "tests" in d or "__pycache__" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("__init__.py", "interface.py", "exception.py", "conftest.py"):
                out.append(os.path.relpath(os.path.join(d, f), f"/repo/{PKG}"))
    return sorted(out)


def copy(w):
    from seed import copy as c

    return c(w)




def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run(cmd, **kw):
    try:
        return subprocess.run(cmd, preexec_fn=limits, capture_output=True, text=True, timeout=900, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def run_tests(w, full=False):
    """True when the stable tests pass (stops at the first failure)"""
    env = dict(ENV, PYTHONPATH=w)
    r = run(
        [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--tb=no", "--check-structure"],
        cwd=w, env=env,
    )
    if r.returncode:
        return False
    nx = f"{NX}/algorithms"
    t = [f"{nx}/tests/test_{x}.py" for x in FILES.split()] + [
        f"{nx}/{x}/tests" for x in ("link_analysis", "operators", "shortest_paths", "traversal", "components")
    ] + [f"{nx}/centrality/tests/test_{x}_centrality.py" for x in ("degree", "eigenvector", "katz")] + [
        f"{nx}/isomorphism/tests/test_isomorphism.py", f"{nx}/community/tests/test_quality.py",
        f"{nx}/../generators/tests/test_ego.py", f"{nx}/assortativity", f"{nx}/bipartite/tests/test_cluster.py",
        f"{nx}/approximation/tests/test_approx_clust_coeff.py", f"{nx}/tree",
    ] + [f"{NX}/linalg/tests"]
    env.update(NETWORKX_GRAPH_CONVERT="graphblas", NETWORKX_TEST_BACKEND="graphblas", NETWORKX_FALLBACK_TO_NX="True")
    base = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--maxfail=1", "--tb=no"]
    if not full:
        return run([*base, *t], cwd=w, env=env).returncode == 0
    ign = f"--ignore={NX}/algorithms/isomorphism/tests/test_tree_isomorphism.py"
    return run([*base, "--pyargs", "networkx", "-n", "3", ign], cwd=w, env=env).returncode == 0


NX = "/opt/venv/lib/python3.12/site-packages/networkx"
FILES = """boundary cluster core cuts dag dominating efficiency isolate lowest_common_ancestors reciprocity regular
simple_paths smetric structuralholes tournament triads distance_measures non_randomness richclub wiener"""


def anchors():
    import re

    m = {}
    for line in open(f"{ROOT}/properties.jsonl"):
        d = json.loads(line)
        for f in d["anchors"]["files"]:
            m.setdefault(re.sub(rf"^{PKG}/", "", f), []).append(d["id"])
    return m


ONLY, NOTESTS = set(), set()
SKIP = {"C01", "C02", "C19", "C21", "C24"}  # tried last


def work(q, k, out, lock, anch):
    w = copy(f"mut{k}")
    while True:
        try:
            f, m = q.get_nowait()
        except Empty:
            break
        ln, what, old, new, src = m
        p = f"{w}/{PKG}/{f}"
        orig = open(p).read()
        t0 = time.time()
        rec = {"file": f, "line": ln, "what": what, "old": old[:200], "new": new[:200]}
        try:
            open(p, "w").write(src)
            if not NOTESTS and not run_tests(w):
                rec["result"] = "tests"
            else:
                f2 = f.replace("nxapi", "algorithms") if "linalg" not in f and "gener" not in f else f[6:]
                ids = set(anch.get(f, [])) | (set(anch.get(f2, [])) - {"C01", "C02"})
                if f.startswith("nxapi") and not NOTESTS:
                    ids |= {"C21", "C24"}
                ids = sorted(ids, key=lambda i: (i in SKIP, i))
                rec["result"], rec["ids"] = "SURVIVED", ids
                for i in ids:
                    r = run(
                        [PY, "run.py", "check", i, "--tier", "quick", "--no-evidence"],
                        cwd=ROOT, env=dict(ENV, VERIF_REPO=w),
                    )
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        rec["result"] = i
                        break
                    if r.returncode not in (0, 1):
                        rec["odd"] = [i, r.returncode, (r.stdout + r.stderr)[-300:]]
                if rec["result"] == "SURVIVED" and not NOTESTS and not run_tests(w, True):
                    rec["result"] = "tests"
        finally:
            open(p, "w").write(orig)
        rec["t"] = round(time.time() - t0)
        with lock:
            out.write(json.dumps(rec) + "\n")
            out.flush()
    shutil.rmtree(w, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    opt = {"--jobs": 2, "--sample": 0, "--seed": 1}
    for o in opt:
        if o in args:
            i = args.index(o)
            opt[o] = int(args[i + 1])
            del args[i : i + 2]
    if "--no-tests" in args:
        args.remove("--no-tests")
        NOTESTS.add(1)
    if "--what" in args:
        i = args.index("--what")
        ONLY.update(args[i + 1].split(","))
        del args[i : i + 2]
    if cmd == "list":
        tot = 0
        for f in args or files():
            ms = mutants(open(f"/repo/{PKG}/{f}").read())
            tot += len(ms)
            print(len(ms), f, flush=True)
        print(tot)
        return
    outp, fs = args[0], args[1:] or files()
    done = set()
    if os.path.exists(outp):
        done = {(d["file"], d["line"], d["what"], d["new"]) for d in map(json.loads, open(outp))}
    rnd = random.Random(opt["--seed"])
    todo = []
    for f in fs:
        ms = mutants(open(f"/repo/{PKG}/{f}").read())
        if ONLY:
            ms = [m for m in ms if m[1].split()[0] in ONLY]
        rnd.shuffle(ms)
        if opt["--sample"]:
            ms = ms[: opt["--sample"]]
        todo += [(f, m) for m in ms if (f, m[0], m[1], m[3][:200]) not in done]
    rnd.shuffle(todo)
    q = Queue()
    for x in todo:
        q.put(x)
    print(len(todo), "mutants", flush=True)
    lock, anch = threading.Lock(), anchors()
    with open(outp, "a") as out:
        ts = [threading.Thread(target=work, args=(q, k, out, lock, anch)) for k in range(opt["--jobs"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
