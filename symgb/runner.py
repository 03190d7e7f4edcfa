"""Runs the instances of a property: symbolic exploration in worker processes, replay, evidence."""

from __future__ import annotations

import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import shapes

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
}


class Inst:
    """one bounded verification instance: harness(ctx, **params); 2**shards tasks"""

    def __init__(self, harness, params=None, shards=0, paths=20000, **kw):
        self.harness = harness
        # as the replay sees them
        self.params = json.loads(json.dumps(dict(params or {}, **kw)))
        self.shards = shards
        self.paths = paths

    def key(self):
        return f"{self.harness}({', '.join(f'{k}={v}' for k, v in self.params.items())})"


# ------------------------------------------------------------------ real server
class Real:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, **ENV)
        env["VERIF_REPO"] = REPO
        self.p = subprocess.Popen(
            [PY, "-m", "symgb.realserver"],
            cwd=ROOT,
            env=env,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
        )

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def ask(self, req, timeout=25.0):
        first = self.p is None or self.p.poll() is not None
        if first:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.stop()
            return {"outcome": "error", "error": "server died"}
        r, _, _ = select.select([self.p.stdout], [], [], timeout + (20 if first else 0))
        if not r:
            self.stop()
            return {"outcome": "timeout"}
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return {"outcome": "crash"}
        return json.loads(line)


# ------------------------------------------------------------------ worker
class PathTimeout(BaseException):
    pass


_real = None
_funcs = set()
_mod = None


def _monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "verif")
    except ValueError:
        return
    prefix = os.path.join(REPO, "graphblas_algorithms") + os.sep

    def start(code, off):
        if code.co_filename.startswith(prefix):
            _funcs.add(f"{code.co_filename[len(prefix):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def _value(m, t):
    from . import terms as T

    if T.is_const(t):
        if isinstance(t, float):
            return str(Fraction(t))
        return t
    v = m.eval(t, model_completion=True)
    z3 = T.z3
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return str(v.as_fraction())
    if z3.is_algebraic_value(v):
        return str(v.approx(20).as_fraction())
    return None


def _assignments(E, ctx, extra):
    """up to three models of the path condition (+ extra), nicest numbers first"""
    from . import terms as T

    z3 = T.z3
    reals = [t for t in ctx.inputs.values() if T.is_sym(t) and z3.is_real(t)]
    prefs = []
    if reals:
        prefs.append([z3.IsInt(t) for t in reals] + [z3.And(t <= 64, t >= -64) for t in reals])
        prefs.append([z3.IsInt(4 * t) for t in reals])
    prefs.append([])
    seen = set()
    for pref in prefs:
        r = E.check(*extra, *pref)
        if r == z3.sat:
            m = E.solver.model()
            a = {k: _value(m, t) for k, t in ctx.inputs.items()}
            key = json.dumps(a, sort_keys=True, default=str)
            if key not in seen:
                seen.add(key)
                yield a


def run_task(task):
    from . import explore, shadow
    from . import terms as T
    from .harness import SymCtx

    global _real, _mod
    module, inst_i, harness, params, bits, deadline, opts = task
    t0 = time.monotonic()
    res = {
        "inst": inst_i,
        "bits": bits,
        "candidates": [],
        "violations": [],
        "undecided": [],
        "discharged": 0,
        "validated": 0,
        "samples": [],
        "funcs": [],
        "skipped": False,
    }
    if time.monotonic() > deadline:
        res["skipped"] = True
        res["undecided"].append("not started: time budget")
        return res
    if _real is None:
        _real = Real()
        _monitor()
    _funcs.clear()
    sys.monitoring.restart_events()
    mod = importlib.import_module(f"props.{module}")
    fn = getattr(mod, harness)
    E = explore.Explorer(
        timeout_ms=opts["timeout_ms"], max_paths=opts["max_paths"], deadline=deadline
    )
    calls0 = sum(shadow.CALLS.values())
    ctxs = {}

    def on_alarm(sig, frame):
        raise PathTimeout

    signal.signal(signal.SIGALRM, on_alarm)

    def body(E):
        ctx = SymCtx(E, bits)
        ctxs["c"] = ctx
        ctx.escaped = None
        signal.alarm(opts["path_s"])
        try:
            ctx.shape = params.get("shape")
            fn(ctx, **{k: v for k, v in params.items() if k != "shape"})
        except PathTimeout:
            ctx.escaped = ("timeout", "path did not finish", "")
        except T.SpecialFloat as e:
            raise explore.Unsupported(f"special float {e}") from None
        except Exception as e:
            ctx.escaped = (type(e).__name__, str(e)[:300], traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)
            ctx.done = True

    def replay(a, timeout=25.0):
        return _real.ask(
            {"module": module, "harness": harness, "params": params, "assignment": a}, timeout
        )

    def confirm(ctx, extra, what, tb=""):
        """candidate counterexample: replay on the real code"""
        tried = []
        for a in _assignments(E, ctx, extra):
            r = replay(a)
            if r["outcome"] == "fail" or (r["outcome"] in ("timeout", "crash")):
                if r["outcome"] == "timeout" and replay(a, 60.0)["outcome"] != "timeout":
                    continue
                res["violations"].append(
                    {
                        "what": what,
                        "assignment": a,
                        "failures": r.get("failures", [r["outcome"]]),
                        "traceback": r.get("traceback", ""),
                    }
                )
                return True
            tried.append(r["outcome"] if r["outcome"] != "error" else r.get("error"))
        res["undecided"].append(
            f"candidate not reproduced on the real code ({what}; replay: {tried[:3]})"
        )
        if opts.get("debug"):
            res["undecided"].append(tb)
            res["undecided"].append(json.dumps(next(iter(_assignments(E, ctx, extra)), None)))
        return False

    npath = 0
    spurious = 0
    for status in E.explore(body):
        npath += 1
        ctx = ctxs["c"]
        if status == "unsupported":
            # no verdict from the encoder: at least run the real code on one model of this path
            for a in itertools.islice(_assignments(E, ctx, []), 1):
                if replay(a)["outcome"] == "fail":
                    confirm(ctx, [], "real code fails on a path outside the encoding")
            if res["violations"]:
                break
            continue
        if ctx.escaped is not None:
            ok = confirm(
                ctx, [], f"escaped {ctx.escaped[0]}: {ctx.escaped[1]}", ctx.escaped[2]
            )
            if ok:
                break
            spurious += 1
            if spurious > 20:
                res["undecided"].append("too many candidates, stopped")
                break
            continue
        E.stats.reached += 1
        E.stats.obligations += len(ctx.obl)
        todo = [(c, l) for c, l in ctx.obl if c is not True]
        res["discharged"] += len(ctx.obl) - len(todo)
        if todo:
            neg = T.to_z3(T.b_not(T.b_and(*[c for c, _ in todo])))
            r = E.check(neg)
            if r == T.z3.unsat:
                res["discharged"] += len(todo)
            elif r == T.z3.sat:
                m = E.solver.model()
                bad = []
                for c, l in todo:
                    v = c if T.is_const(c) else T.z3.is_true(m.eval(c, model_completion=True))
                    if not v:
                        bad.append(l)
                if confirm(ctx, [neg], "; ".join(bad[:3])):
                    break
                spurious += 1
                if spurious > 20:
                    res["undecided"].append("too many candidates, stopped")
                    break
            else:
                # try them one by one
                for c, l in todo:
                    r = E.check(T.to_z3(T.b_not(c)))
                    if r == T.z3.unsat:
                        res["discharged"] += 1
                    elif r == T.z3.sat:
                        if confirm(ctx, [T.to_z3(T.b_not(c))], l):
                            break
                    else:
                        res["undecided"].append(f"solver unknown: {l}")
                        for a in itertools.islice(_assignments(E, ctx, []), 1):
                            if replay(a)["outcome"] == "fail":
                                confirm(ctx, [], l)
                if res["violations"]:
                    break
        # the encoding is checked against the real code on models of some paths
        if npath in opts["validate_paths"]:
            for a in itertools.islice(_assignments(E, ctx, []), 1):
                r = replay(a)
                if r["outcome"] == "ok":
                    res["validated"] += 1
                    if len(res["samples"]) < 1:
                        res["samples"].append({"assignment": a, "real_checks": r["checks"]})
                elif r["outcome"] == "fail":
                    confirm(ctx, [], "real code disagrees with the encoding on a path model")
                    break
                else:
                    res["undecided"].append(f"validation replay: {r}")
        if res["violations"]:
            break
    st = E.stats
    res["stats"] = {
        "paths": st.paths,
        "forks": st.forks,
        "queries": st.queries,
        "solver_s": st.solver_s,
        "obligations": st.obligations,
        "infeasible": st.infeasible,
        "reached": st.reached,
    }
    res["undecided"] += st.undecided
    res["capi_calls"] = sum(shadow.CALLS.values()) - calls0
    res["funcs"] = sorted(_funcs)
    res["wall"] = time.monotonic() - t0
    return res


def _worker_init():
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGINT, signal.SIG_IGN)


# ------------------------------------------------------------------ main
def run_property(pid, tier, *, only=None, jobs=8, debug=False, verbose=False, budget=None, keep_going=False):
    t0 = time.monotonic()
    for k, v in ENV.items():
        os.environ[k] = v
    for p in (ROOT, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    warnings.simplefilter("ignore")
    from . import shadow

    shadow.install()
    import graphblas_algorithms  # noqa: F401
    from graphblas_algorithms import nxapi  # noqa: F401

    module = pid.lower()
    mod = importlib.import_module(f"props.{module}")
    insts = mod.instances(tier)
    if only:
        insts = [i for i in insts if only in i.key()]
    if budget is None:
        budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    deadline = t0 + budget
    opts = {
        "timeout_ms": 20000 if tier == "quick" else 60000,
        "path_s": 60 if tier == "quick" else 180,
        "debug": debug,
    }
    tasks = []
    for i, inst in enumerate(insts):
        for bits in itertools.product([False, True], repeat=inst.shards):
            o = dict(opts, max_paths=inst.paths)
            # models replayed per task: first path, and a later one
            o["validate_paths"] = (1, 7) if inst.shards == 0 else ((2,) if sum(bits) % 2 else ())
            tasks.append((module, i, inst.harness, inst.params, list(bits), deadline, o))
    # when a changed tree makes the large instances slow, the small ones have been decided
    tasks.sort(key=lambda t: len(t[4]))
    per = [
        {
            "instance": inst.key(),
            "tasks": 0,
            "paths": 0,
            "obligations": 0,
            "discharged": 0,
            "queries": 0,
            "solver_s": 0.0,
            "validated": 0,
            "wall_s": 0.0,
            "undecided": [],
        }
        for inst in insts
    ]
    tot = {"forks": 0, "capi": 0, "infeasible": 0, "reached": 0}
    funcs, samples, violations = set(), [], []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(jobs, max(1, len(tasks))), initializer=_worker_init)
    done = 0
    try:
        it = pool.imap_unordered(run_task, tasks)
        hard = deadline + 90
        while True:
            try:
                res = it.next(timeout=max(1.0, hard - time.monotonic()))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            done += 1
            q = per[res["inst"]]
            q["tasks"] += 1
            q["undecided"] += res["undecided"]
            q["discharged"] += res["discharged"]
            q["validated"] += res["validated"]
            st = res.get("stats")
            if st:
                q["paths"] += st["paths"]
                q["obligations"] += st["obligations"]
                q["queries"] += st["queries"]
                q["solver_s"] += st["solver_s"]
                q["wall_s"] += res["wall"]
                tot["forks"] += st["forks"]
                tot["infeasible"] += st["infeasible"]
                tot["reached"] += st["reached"]
                tot["capi"] += res["capi_calls"]
            funcs |= set(res["funcs"])
            for s in res["samples"]:
                if len(samples) < 6:
                    samples.append({"instance": q["instance"], **s})
            for v in res["violations"]:
                inst = insts[res["inst"]]
                violations.append((inst, v))
            if verbose and (res["undecided"] or res["violations"]):
                print(q["instance"], res["undecided"][:6], res["violations"][:1], flush=True)
            if violations and not keep_going:
                break
    finally:
        pool.terminate()
        pool.join()
    if done < len(tasks) and not violations:
        per[-1]["undecided"].append(f"{len(tasks) - done} tasks not finished within the time limit")
    out_viol = []
    if keep_going:  # development: one counterexample per instance
        one = {}
        for inst, v in violations:
            one.setdefault((inst.harness, v["what"][:40], str(v["failures"])[:40]), (inst, v))
        violations = list(one.values())
    else:
        violations = violations[:1]
    for inst, v in violations:
        blob = {
            "property": pid,
            "module": module,
            "harness": inst.harness,
            "params": inst.params,
            "assignment": v["assignment"],
            "failed": v["failures"],
            "what": v["what"],
            "traceback": v["traceback"],
        }
        hsh = hashlib.sha1(json.dumps(blob, sort_keys=True, default=str).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{pid}-{hsh}.json")
        with open(path, "w") as f:
            json.dump(blob, f, indent=1, default=str)
        out_viol.append((path, v))
    wall = time.monotonic() - t0
    nund = sum(len(q["undecided"]) for q in per)
    for q in per:
        u = q["undecided"]
        q["undecided_count"] = len(u)
        q["undecided"] = sorted(set(str(x)[:300] for x in u))[:8]
        q["solver_s"] = round(q["solver_s"], 3)
        q["wall_s"] = round(q["wall_s"], 2)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": sum(q["paths"] for q in per),
            "transitions": tot["forks"],
            "traces_validated_against_impl": sum(q["validated"] for q in per),
            "samples": samples or [{"note": "no sample path was replayed in this run"}],
            "explanation": (
                "Symbolic execution of the real code of /repo (regenerated on every run) on a "
                "symbolic model of the SuiteSparse:GraphBLAS C library; states = feasible "
                "symbolic paths, transitions = branch decisions checked with z3; every path "
                "carries proof obligations decided by z3 for all inputs of the path."
            ),
            "bounds": getattr(mod, "BOUNDS", "") + shapes.bounds(insts),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": sorted(funcs),
            "modelled_library_calls": tot["capi"],
            "obligations": sum(q["obligations"] for q in per),
            "discharged": sum(q["discharged"] for q in per),
            "solver_queries": sum(q["queries"] for q in per),
            "solver_s": round(sum(q["solver_s"] for q in per), 2),
            "infeasible_paths": tot["infeasible"],
            "paths_with_obligations_reached": tot["reached"],
            "undecided": nund,
            "exhaustive_within_bounds": nund == 0 and done == len(tasks),
            "instances": per,
        },
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(out_viol),
    }
    return ev, out_viol


ASSUMPTIONS = [
    "floating-point numbers are modelled as mathematical reals (checks on quotients, roots and "
    "sums use a small tolerance); inputs are finite",
    "64-bit integer arithmetic does not overflow within the bounds; narrower integers wrap",
    "the SuiteSparse:GraphBLAS C library is replaced by the model in symgb/shadow.py (validated: "
    "the repository's own tests and the networkx suite pass on the model, and models of explored "
    "paths are replayed on the real library in every run)",
    "a float matrix with equal values may or may not be flagged iso-valued (both are explored)",
]
