#!/opt/venv/bin/python
"""run.py check <ID> --tier quick|thorough   |   run.py replay <file>"""

import argparse
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    c.add_argument("--only")
    c.add_argument("--jobs", type=int, default=8)
    c.add_argument("--debug", action="store_true")
    c.add_argument("-v", "--verbose", action="store_true")
    c.add_argument("--budget", type=float)
    c.add_argument("--no-evidence", action="store_true")
    c.add_argument("--keep-going", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("selftest")
    a = ap.parse_args()
    from symgb import runner

    if a.cmd == "selftest":
        selftest()

    if a.cmd == "replay":
        req = json.load(open(a.file))
        for k, v in runner.ENV.items():
            os.environ[k] = v
        out = runner.Real().ask(req, 120.0)
        print(json.dumps(out, indent=1))
        if "traceback" in out:
            print(out["traceback"])
        sys.exit(1 if out["outcome"] in ("fail", "timeout", "crash") else 0)

    ev, viol = runner.run_property(
        a.property,
        a.tier,
        only=a.only,
        jobs=a.jobs,
        debug=a.debug,
        verbose=a.verbose,
        budget=a.budget,
        keep_going=a.keep_going,
    )
    known = known_findings(a.property)
    ev["coverage"]["known_findings"] = known
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"{a.property}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)
    cov = ev["coverage"]
    print(
        f"{a.property} [{a.tier}] paths={cov['states']} obligations={cov['obligations']} "
        f"discharged={cov['discharged']} queries={cov['solver_queries']} "
        f"solver={cov['solver_s']}s replayed={cov['traces_validated_against_impl']} "
        f"undecided={cov['undecided']} wall={ev['wall_s']}s"
    )
    for q in cov["instances"]:
        if a.verbose:
            print("  ", q["instance"], q["paths"], "paths", q["discharged"], "/", q["obligations"], f"{q['wall_s']}s", q["undecided_count"], "undecided")
    seen = {}
    for q in cov["instances"]:
        for u in q["undecided"]:
            seen.setdefault(u, []).append(q["instance"])
    for u, where in list(seen.items())[:40]:
        print(f"  undecided in {len(where)} instances, e.g. {where[0]}: {u}")
    for k in known:
        print(f"KNOWN-FINDING: property={a.property} {k}")
    for path, v in viol:
        blob = json.load(open(path))
        print(f"  {blob['harness']}({blob['params']}) {v['what']}")
        if a.keep_going:
            print("  ", {k: x for k, x in v["assignment"].items() if x not in (False, 0, "0")})
        print(f"  failed on the real code: {v['failures'][:3]}")
        print(f"VIOLATION property={a.property} replay={path}")
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def selftest():
    """the tools are there, the solver answers, the real library can be driven"""
    from symgb import runner
    from symgb import terms as T

    x = T.z3.Int("x")
    s = T.z3.Solver()
    s.add(T.lt(x, 0), T.lt(0, x))
    assert s.check() == T.z3.unsat
    out = runner.Real().ask(
        {"prop": "c03", "harness": "nope", "params": {}, "assignment": {}}, 60.0
    )
    assert "outcome" in out
    print("selftest ok; z3", T.z3.get_version_string())
    sys.stdout.flush()
    os._exit(0)


def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [
        f["what"] for f in json.load(open(p)) if f["property"] == pid and f["status"] == "open"
    ]


if __name__ == "__main__":
    main()
