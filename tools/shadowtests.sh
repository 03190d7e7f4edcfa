#!/bin/bash
# Validates the GraphBLAS model: the repository's own tests on top of it (not part of any check).
# usage: tools/shadowtests.sh        output in a scratch directory, removed at the end
here=$(cd "$(dirname "$0")" && pwd)
cd "${VERIF_REPO:-/repo}" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$here
timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p shadowplug -n 8 --timeout=100 graphblas_algorithms 2>&1 | tail -5
NX=/opt/venv/lib/python3.12/site-packages/networkx
export NETWORKX_GRAPH_CONVERT=graphblas NETWORKX_TEST_BACKEND=graphblas NETWORKX_FALLBACK_TO_NX=True
timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p shadowplug --pyargs networkx -n 8 \
  --dist worksteal --timeout=100 --ignore="$NX/algorithms/isomorphism/tests/test_tree_isomorphism.py" 2>&1 | tail -5
# python-graphblas' own tests: what fails must be the extension methods that are not modelled
# (sort, selectk, compactify, split, reshape, pack, serialize, import_*), complex numbers, subarray
# dtypes, and memory sizes; /repo uses none of them
export GBTESTS=1
cd /tmp || exit 2
for t in test_vector test_matrix test_mask test_infix test_scalar test_resolving; do
  timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p shadowplug --pyargs graphblas.tests.$t \
    --timeout=200 --tb=no 2>&1 | grep -a "FAILED\|passed" | cut -c1-110
done
