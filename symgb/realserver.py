"""Replays recorded assignments on the real, unpatched library (one JSON request per line)."""

import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (HERE, os.environ.get("VERIF_REPO", "/repo")):
    if p not in sys.path:
        sys.path.insert(0, p)
warnings.simplefilter("ignore")


def run(req):
    from symgb.harness import AssumptionFailed, RealCtx

    mod = importlib.import_module(f"props.{req['module']}")
    fn = getattr(mod, req["harness"])
    ctx = RealCtx(req["assignment"])
    try:
        ctx.shape = req["params"].get("shape")
        fn(ctx, **{k: v for k, v in req["params"].items() if k != "shape"})
    except AssumptionFailed:
        return {"outcome": "assumption"}
    except Exception as e:
        tb = traceback.format_exc()
        return {
            "outcome": "fail",
            "failures": [*ctx.failures, f"escaped exception {type(e).__name__}: {e}"],
            "traceback": tb[-4000:],
        }
    if ctx.failures:
        return {"outcome": "fail", "failures": ctx.failures[:20], "notes": ctx.notes}
    return {"outcome": "ok", "checks": ctx.nchecks}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run(req)
        except BaseException as e:  # report, never die silently
            r = {"outcome": "error", "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
