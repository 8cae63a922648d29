#!/bin/bash
# Runs the checks (all, or those named) on a scratch copy of /repo with the behaviour-preserving
# edits of tools/refactors applied; every line must end in 0.
here=$(dirname "$(readlink -f "$0")")
tree=$(mktemp -d /tmp/refactor.XXXX)
cp -a /repo/src "$tree/src"
for d in "$here"/refactors/*.diff; do (cd "$tree" && git apply --unsafe-paths "$d" || patch -sp1 < "$d") || exit 2; done
cd "$here/.." || exit 2
for c in ${*:-$(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])")}; do
  PYTHONPATH=$tree/src ./check "$c" > "$tree/out" 2>&1
  echo "$c $?"
done
rm -rf "$tree"
