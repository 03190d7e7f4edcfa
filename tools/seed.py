#!/usr/bin/env python3
"""Makes and tries planted bugs.   seed.py make FILE...  |  seed.py try ID... [--tier T] [--all]

A bug file is Python: dict BUG = {id, property, needs, breaks, edits: [(file, old, new)], demo}.
`make` applies the edits to a copy of /repo's HEAD, runs the demo on both trees and the stable
tests on the changed one, and writes seeded/<id>/ when the bug counts.
`try` runs the property's check (VERIF_REPO) against the changed copy."""

import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def copy(name):
    w = f"/tmp/seedw/{name}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f in subprocess.run(
        ["git", "-C", "/repo", "ls-files", "-o", "--directory"], capture_output=True, text=True
    ).stdout.split():
        s = f"/repo/{f}".rstrip("/")
        if os.path.isdir(s):
            shutil.copytree(s, f"{w}/{f}".rstrip("/"), dirs_exist_ok=True)
        elif os.path.exists(s):
            shutil.copy(s, f"{w}/{f}")
    return w


def tests(w, name):
    sh = open("/opt/vp/test.sh").read()
    sh = sh.replace("/opt/vp/reports", f"/tmp/seedw/{name}.reports").replace("/repo", w)
    sh = sh.replace("-n 8", "-n 4")
    path = f"/tmp/seedw/{name}.test.sh"
    open(path, "w").write(sh)
    out = f"/tmp/seedw/{name}.json"
    subprocess.run(
        ["bash", path, out], env=dict(ENV, PYTHONPATH=w), stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL, timeout=1200, cwd=w,
    )
    o = json.load(open(out))
    b = json.load(open("/opt/vp/BASELINE.json"))
    b = b if isinstance(b, list) else b.get("passed", b.get("stable"))
    shutil.rmtree(f"/tmp/seedw/{name}.reports", ignore_errors=True)
    return sorted(set(b) - set(o["passed"]))


def demo(w, d):
    try:
        r = subprocess.run(
            ["bash", f"{d}/demo.sh"], cwd=w, env=dict(ENV, PYTHONPATH=w), capture_output=True,
            text=True, timeout=120,
        )
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-800:]


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    out = []
    for bug in ns["BUGS"]:
        out.append(make_one(bug))
    return "\n".join(out)


def make_one(bug, force=False):
    name = bug["id"]
    d = f"{ROOT}/seeded/{name}"
    tmp = f"/tmp/seedw/{name}.demo"
    w = copy(name)
    try:
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/demo.py", "w").write(
            "import os, sys\nsys.path.insert(0, os.getcwd())\n" + bug["demo"].lstrip("\n")
        )
        open(f"{tmp}/demo.sh", "w").write(
            'exec env OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
        rc, o = demo(w, tmp)
        if rc != 0:
            return f"{name}: BAD demo fails on the unchanged tree: {o}"
        for f, old, new, *nth in bug["edits"]:
            p = f"{w}/graphblas_algorithms/{f}"
            s = open(p).read()
            parts = s.split(old)
            if len(parts) < 2 or (len(parts) > 2 and not nth):
                return f"{name}: BAD {len(parts) - 1} matches in {f}: {old}"
            i = nth[0] + 1 if nth else 1
            open(p, "w").write(old.join(parts[:i]) + new + old.join(parts[i:]))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        own = own_lines(diff)
        rc, o = demo(w, tmp)
        if rc == 0:
            return f"{name}: BAD demo passes with the bug"
        miss = tests(w, name)
        if miss:
            return f"{name}: BAD breaks tests {miss[:3]} ({len(miss)})"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        shutil.copy(f"{tmp}/demo.py", d)
        shutil.copy(f"{tmp}/demo.sh", d)
        json.dump(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
            open(f"{d}/meta.json", "w"),
            indent=1,
        )
        return f"{name}: ok {'(changes own lines: ' + str(own) + ')' if own else ''} {o.splitlines()[-1] if o else ''}"
    finally:
        for x in (w, tmp):
            shutil.rmtree(x, ignore_errors=True)


def own_lines(diff):
    """removed lines that this project's own fix commits added"""
    mine = subprocess.run(
        ["git", "-C", "/repo", "log", "-p", "--format=", "8bdb257..HEAD"], capture_output=True, text=True
    ).stdout
    added = {x[1:].strip() for x in mine.splitlines() if x.startswith("+")}
    rem = [x[1:].strip() for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
    return [x for x in rem if x and x in added]


def attempt(name, tier="quick", props=None):
    d = f"{ROOT}/seeded/{name}"
    w = copy("try_" + name)
    try:
        r = subprocess.run(["git", "-C", w, "apply", f"{d}/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return f"{name}: DOES NOT APPLY {r.stderr}"
        props = props or [json.load(open(f"{d}/meta.json"))["property"]]
        res = []
        for p in props:
            r = subprocess.run(
                [PY, "run.py", "check", p, "--tier", tier, "--no-evidence"],
                cwd=ROOT, env=dict(ENV, VERIF_REPO=w), capture_output=True, text=True,
            )
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            res.append(f"{p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}")
            if r.returncode not in (0, 1):
                res.append(r.stdout[-500:] + r.stderr[-500:])
            f = [x for x in r.stdout.splitlines() if "failed on the real" in x]
            if f:
                res.append(f[0].strip()[:150])
        return f"{name}: " + " | ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        bugs = []
        for a in args:
            ns = {}
            exec(open(a).read(), ns)
            bugs += ns["BUGS"]
        with ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as ex:
            for r in ex.map(make_one, bugs):
                print(r, flush=True)
    else:
        tier = "quick"
        if "--tier" in args:
            i = args.index("--tier")
            tier = args[i + 1]
            del args[i : i + 2]
        if "--all" in args:
            args = sorted(os.listdir(f"{ROOT}/seeded"))
        for a in args:
            print(attempt(a, tier), flush=True)
