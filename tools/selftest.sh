#!/bin/bash
# tools/selftest.sh OUT [IDS]: change one value in recorded histories; how many does TLC then reject? One JSON line per validation.
OUT=$1; shift; rm -f "$OUT"
cd "$(dirname "$0")/.." || exit 1
for k in ${*:-R01 R02 R03 R04 R05 I01 I02 I03 I04 S01 S02 S03 S04 S05 S06 S07 S08 S09 X01 X02 B01 B02 A01 A02 A03 A04 A05 A06 L01}; do
  VERIF_SELFTEST="$OUT" ./check "$k" quick | tail -1
done
