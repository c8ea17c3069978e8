#!/bin/bash
# tools/all.sh [quick|thorough] [IDS...]: runs the checks one after another, prints the ending and time of each
cd "$(dirname "$(realpath "$0")")/.." || exit 2
t=${1:-quick}; shift
ids=${*:-$(grep -o '"id": "C[0-9]*"' properties.jsonl | grep -o 'C[0-9]*')}
for i in $ids; do s=$(date +%s.%N); o=$(VERIF_SEED=1 VERIF_TIER=$t bash check.sh $i $t 2>&1); c=$?
  printf '%s rc=%s %.1fs %s\n' $i $c $(echo "$(date +%s.%N)-$s" | bc) "$(echo "$o" | grep -E 'VIOLATION|KNOWN|no verdict|error' | head -3 | tr '\n' ' ')"; done
