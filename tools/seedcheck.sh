#!/bin/bash
# seedcheck.sh ID...: run the check of each planted bug's property with the bug applied to /repo.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
  out=$(VERIF_TIER=quick VERIF_SEED=1 python3 /verif/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id $p rc=$rc"; echo "$out" | grep "VIOLATION" | head -4; [ $rc = 1 ] || echo "$out" | tail -3
done
