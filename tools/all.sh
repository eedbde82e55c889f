#!/bin/bash
# all.sh [output dir] [ids...]: runs the checks one after another, one summary line each
cd "$(dirname "$0")/.." || exit 1
O="${1:-/tmp/all.$$}"; shift; mkdir -p "$O"
[ $# = 0 ] && set -- $(seq -f 'C%02g' 1 29)
for p in "$@"; do
  s=$(date +%s)
  timeout 3000 ./run_check.sh "$p" > "$O/$p" 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$O/$p") $(grep -A1 -m1 VIOLATION "$O/$p" | tail -1 | cut -c1-220)"
done
