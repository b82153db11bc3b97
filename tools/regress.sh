#!/bin/bash
# run every claimed check once; one line each
cd "$(dirname "$0")/.."
for f in contracts/C*.py; do
  i=$(basename "$f" .py); s=$(date +%s)
  EVIDENCE_DIR=/tmp/regress timeout 880 python3 check.py "$i" > /tmp/regress_$i.txt 2>&1; rc=$?
  echo "$i rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E 'VIOLATION|undischarged|KNOWN' /tmp/regress_$i.txt | cut -c1-200)"
done
echo done
