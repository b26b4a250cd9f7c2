#!/bin/bash
# catch.sh [ID...]: apply each planted change to /repo, run the quick check of its property, undo
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash check.sh ${CHECK:-$p} quick >/tmp/catch.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p} exit=$r $(($(date +%s)-t))s $(grep -m1 VIOLATION /tmp/catch.out | cut -c1-60) | $(grep -v VIOLATION /tmp/catch.out | grep -m1 -iE 'differ|violat|:' | cut -c1-160)"
done
