#!/bin/bash
# usage: seedrun.sh ID...   apply each planted bug to /repo, run its property's quick check, undo
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(cd $V && VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py ${P:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c "^VIOLATION") violations: $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-150)"
done
