#!/bin/bash
# Applies each planted bug (or those given) to /repo, runs the quick check of its property, and undoes it.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py --prop ${PROP:-$p} --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d ${PROP:-$p} rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-150)"
done
