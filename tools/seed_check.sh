#!/bin/bash
# seed_check.sh ID...: applies each planted bug to /repo, runs its property's quick check, restores.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p quick >/tmp/sd-$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -m1 ^VIOLATION /tmp/sd-$id.log)"
done
