#!/bin/bash
# applies each planted bug to /repo, runs its property's check, undoes it (development aid; no check uses it)
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $d rc=$rc $(echo "$out" | grep -E '^(VIOLATION|failing|failed|undecided|ERROR)' | cut -c1-220 | tr '\n' '|')"
done
