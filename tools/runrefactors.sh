#!/bin/bash
# Author's tool: applies each behaviour-preserving edit to /repo, runs checks (which must stay
# quiet), undoes it.   tools/runrefactors.sh [-p "C01 C02"] [ids...]
cd /verif || exit 1
ps=$(seq -f 'C%02g' 1 18)
if [ "$1" = -p ]; then ps=$2; shift 2; fi
for b in ${*:-$(cd tools/refactors && ls *.diff)}; do
  git -C /repo apply /verif/tools/refactors/$b || { echo "$b NOAPPLY"; continue; }
  for q in $ps; do
    t0=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py run $q --tier quick 2>&1); rc=$?
    echo "$b check=$q rc=$rc $(( $(date +%s) - t0 ))s $([ $rc = 0 ] || echo "$out" | head -c 1500)"
  done
  git -C /repo checkout -- .
done
