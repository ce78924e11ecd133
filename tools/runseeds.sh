#!/bin/bash
# Author's tool: applies each planted bug to /repo, runs checks, undoes it.
#   tools/runseeds.sh own [id...]     each bug against its own property's check
#   tools/runseeds.sh all [id...]     each bug against every check
cd /verif || exit 1
mode=$1; shift
ids=${*:-$(ls seeded)}
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
  if [ "$mode" = own ]; then ps=$p; else ps=$(seq -f 'C%02g' 1 18); fi
  for q in $ps; do
    t0=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py run $q --tier quick 2>&1); rc=$?
    echo "$b own=$p check=$q rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
  done
  git -C /repo checkout -- .
done
