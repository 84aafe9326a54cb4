#!/bin/bash
# sweep.sh TIER SEED... : every check, in order, on /repo (or VERIF_REPO); prints one line per check
cd "$(dirname "$0")/.." || exit 2
tier=$1; shift
for seed in "$@"; do
  for p in $(python3 -c "
import json
print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
    VERIF_SEED=$seed python3 check.py $p $tier 2>&1 | tail -1
    [ "${PIPESTATUS[0]}" = 0 ] || echo "FAIL $p seed $seed"
  done
done
