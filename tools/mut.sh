#!/bin/bash
# usage: mut.sh CHECK FILE OLD NEW: does CHECK notice OLD -> NEW in a scratch copy of the source?
d=$(mktemp -d /tmp/mut.XXXX); cp -a ${BASE:-/tmp/fixrepo}/src $d/src
python3 - "$d/src/disc_solver/$2" "$3" "$4" <<'P' || exit 2
import sys
p, a, b = sys.argv[1:]
s = open(p).read()
assert s.count(a) >= 1, "not found"
open(p, "w").write(s.replace(a, b, 1))
P
PYTHONPATH=$d/src timeout 900 /verif/check $1 2>&1 | tail -3
rm -rf "$d"
