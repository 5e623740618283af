#!/bin/bash
# development tool: run the quick check of each planted bug against it.  usage: sweep.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $prop quick > /tmp/sweep.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION /tmp/sweep.out)"
done
