"""pytest plugin: runs a test suite on top of the GraphBLAS model (constants only)."""

import os
import sys

sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
from symgb import explore, shadow  # noqa: E402

if os.environ.get("GBTESTS"):  # python-graphblas' own conftest asks for these and calls init

    def pytest_addoption(parser):
        for o in ("randomly", "backend", "blocking", "record", "mapnumpy", "runslow"):
            parser.addoption(f"--{o}", default="suitesparse" if o == "backend" else False)


if os.environ.get("SHADOW", "1") == "1":
    shadow.install()
    explore.concrete_mode()
    if os.environ.get("GBTESTS"):
        import graphblas as gb

        gb.init = lambda *a, **k: None
