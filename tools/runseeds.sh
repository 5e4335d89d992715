#!/bin/bash
# runs the property's check against each planted change: runseeds.sh [ID...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick python3-vt engine/check.py ${PROP:-$P} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $P rc=$rc $(($(date +%s)-s))s"; echo "$out" | cut -c1-${W:-300} | sed 's/^/    /'
done
