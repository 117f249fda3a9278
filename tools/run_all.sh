#!/bin/bash
# every quick check on /repo; one line each
cd "$(dirname "$0")/.."
for i in $(seq -w 1 21); do
  s=$(date +%s); out=$(python3 check.py C$i ${1:-quick} 2>&1); c=$?
  echo "C$i exit=$c $(( $(date +%s) - s ))s $(echo "$out" | tail -2 | tr '\n' ' ')"
done
