#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "graphblas_algorithms/"
CA = G + "classes/_caching.py"


def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(
        id=id,
        title=title,
        statement=statement,
        quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": [f if f.startswith("graphblas") else G + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **kw,
        },
    )


from table import NOTE, PROPS, UNCLAIMED  # noqa: E402

TECH = (
    "symbolic execution of the real Python code over a symbolic GraphBLAS model + SMT (z3); "
    "counterexamples replayed on the real libraries"
)


def main():
    props = [P(**p) for p in PROPS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in UNCLAIMED:
            na.append({"property": i, "reason": UNCLAIMED[i]})
            continue
        checks.append(
            {
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python run.py check {i} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py check {i} --tier thorough",
                "technique": TECH,
                "level": "model_checking",
                "level_note": NOTE.get(i) or bounds(i),
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py selftest",
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


def bounds(i):
    """BOUNDS and OUTSIDE constants of the property module, without importing it"""
    import ast

    t = ast.parse(open(os.path.join(ROOT, "props", i.lower() + ".py")).read())
    out = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and s.targets[0].id in ("BOUNDS", "OUTSIDE"):
            out[s.targets[0].id] = ast.literal_eval(s.value)
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    from symgb import shapes

    mod = importlib.import_module("props." + i.lower())
    out["BOUNDS"] += shapes.bounds(mod.instances("quick"))
    return "Decided for all values within: " + out["BOUNDS"] + ". Not covered: " + out["OUTSIDE"] + "."


if __name__ == "__main__":
    main()
