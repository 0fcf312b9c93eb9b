#!/bin/bash
# seedcheck.sh ID...: runs the property's check against each planted bug, in a
# private mount of a copy of /repo (the real /repo is never touched)
# env PROPS="C01 C02": other checks to run instead of the bug's own
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$(mktemp -d)
  cp -a /repo/. $d/
  git -C $d apply $here/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; rm -rf "$d"; continue; }
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
  for q in $p; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} unshare -m bash -c "mount --bind $d /repo && cd $here && timeout 900 python3 check.py $q" > $d.out 2>&1; rc=$?
  echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -a VIOLATION -B1 $d.out | head -2 | cut -c1-150 | tr '\n' ' ')"
  done
  rm -rf "$d" "$d.out"
done
