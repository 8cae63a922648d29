#!/bin/bash
# tools/plant.sh ID [notests]: confirm a seeded bug in a scratch copy of /repo (patch applies, demo discriminates, tests pass)
# and show which of the given checks (CHECKS="R01 R02") catch it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant-$ID
rm -rf "/tmp/plant-$ID"; cp -a /repo "$W" || exit 9
cd "$W" && git checkout -q -- . 
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cp -r "$S" "$W.demo"; 
PYTHONPATH=$W/src timeout 300 bash "$W.demo/demo.sh" > "$W.demo/clean.log" 2>&1; c=$?
git apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf "/tmp/plant-$ID" "/tmp/plant-$ID.demo"; exit 8; }
PYTHONPATH=$W/src timeout 300 bash "$W.demo/demo.sh" > "$W.demo/bug.log" 2>&1; b=$?
echo "$ID: demo clean=$c bug=$b"
[ $c = 0 ] || tail -5 "$W.demo/clean.log"
[ $b != 0 ] || tail -5 "$W.demo/bug.log"
for k in ${CHECKS:-$(/usr/bin/python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  r=$(cd /verif && PYTHONPATH=$W/src timeout 900 ./check $k quick 2>&1); rc=$?
  echo "$ID: check $k rc=$rc $(echo "$r" | tail -2 | head -c 300 | tr '\n' ' ')"
done
if [ "$2" != notests ]; then
  mkdir -p "$W.t"
  PYTHONHASHSEED=0 MPLBACKEND=TkAgg PYTHONPATH=$W/src xvfb-run -a --server-args="-noreset -screen 0 1280x1024x24" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov \
   --randomly-seed=0 --randomly-dont-reorganize --basetemp="$W.t/tmp" -o junit_family=xunit2 --junitxml="$W.t/j.xml" --timeout=400 -n 8 --dist worksteal \
   --deselect tests/test_run.py::TestSolve::test_fast_crosser_use_E_r tests > "$W.t/log" 2>&1
  tail -1 "$W.t/log"; grep -E "^(FAILED|ERROR)" "$W.t/log" > "$W.t/f"; 
  /usr/bin/python3 - "$W.t/j.xml" <<'P'
import sys, json, xml.etree.ElementTree as ET
base = json.load(open('/opt/vp/BASELINE.json'))
def find(x):
    if isinstance(x, list) and x and isinstance(x[0], str): return x
    if isinstance(x, dict):
        for k in ("stable", "tests", "passed", "stable_tests"):
            if k in x and find(x[k]): return find(x[k])
        for v in x.values():
            r = find(v)
            if r: return r
stable = find(base)
bad = []
for tc in ET.parse(sys.argv[1]).getroot().iter("testcase"):
    if tc.find("failure") is not None or tc.find("error") is not None:
        bad.append(tc.get("classname") + "::" + tc.get("name"))
import re
norm = lambda s: re.sub(r"[^A-Za-z0-9_\[\]=.-]", ".", s)
st = {norm(s) for s in stable}
hit = [b for b in bad if norm(b) in st or any(s.endswith(norm(b)) for s in st)]
print("failed:", len(bad), "of which stable:", hit[:8])
P
fi
rm -rf "/tmp/plant-$ID" "/tmp/plant-$ID.demo" "/tmp/plant-$ID.t"
