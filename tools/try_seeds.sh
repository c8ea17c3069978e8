#!/bin/bash
# tools/try_seeds.sh [SEED...]: applies each planted change to /repo, runs its property's quick check, undoes it
cd "$(dirname "$(realpath "$0")")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for s in ${*:-$(ls seeded)}; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$s/meta.json)
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t=$(date +%s.%N); o=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh $p quick 2>&1); c=$?
  git -C /repo checkout -q -- .
  r=MISSED; [ $c = 1 ] && echo "$o" | grep -q "VIOLATION property=$p " && r=caught; [ $c = 2 ] && r="NO VERDICT"
  printf '%-45s %s %-10s %.1fs  %s\n' $s $p "$r" $(echo "$(date +%s.%N)-$t" | bc) "$(echo "$o" | grep -v VIOLATION | tail -1 | cut -c1-110)"
done
