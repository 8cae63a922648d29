#!/bin/bash
# tools/suite.sh DIR: run the repository's test suite on the copy DIR and compare with the stable list.
W=$1; T=$(mktemp -d /tmp/suite-XXXX); cd "$W" || exit 9
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONHASHSEED=0 MPLBACKEND=TkAgg PYTHONPATH=$W/src xvfb-run -a --server-args="-noreset -screen 0 1280x1024x24" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov \
 --randomly-seed=0 --randomly-dont-reorganize --basetemp="$T/tmp" -o junit_family=xunit2 --junitxml="$T/j.xml" --timeout=400 -n 8 --dist worksteal \
 --deselect tests/test_run.py::TestSolve::test_fast_crosser_use_E_r tests > "$T/log" 2>&1
tail -1 "$T/log"; grep -E "^(FAILED|ERROR)" "$T/log" | head -20
[ -n "$KEEP" ] && cp "$T/log" "$KEEP"
rm -rf "$T"
