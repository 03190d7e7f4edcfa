#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between <!-- x --> and <!-- /x -->)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f"{ROOT}/DESIGN.md").read()
rows = ["| planted bug | needs | breaks | reported by |", "|---|---|---|---|"]
missed = set(json.load(open(f"{ROOT}/tools/missed.json")))
for n in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{n}/meta.json"))
    by = "not caught" if n in missed else m["property"]
    rows.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {by} |")
fixes = []
for e in json.load(open(f"{ROOT}/known-findings.json")):
    fixes.append(f"* {e['property']} `{e['commit']}`: {e['what'].split(e['commit'], 1)[1].strip()}")
for k, v in (("seeds", rows), ("fixes", fixes)):
    d = re.sub(rf"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n" + "\n".join(v) + f"\n<!-- /{k} -->", d, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(d)
