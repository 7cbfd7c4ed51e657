#!/bin/bash
# Runs the property's check against planted bugs: tools/seedcheck.sh [ID...]  (applies each patch to /repo and undoes it)
cd "$(dirname "$0")/.."
ids=("$@"); [ $# -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i APPLY FAILS"; continue; }
  s=$(date +%s)
  timeout 900 ./check $p > /tmp/seedcheck.$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(grep -a VIOLATION /tmp/seedcheck.$i.log | head -1 | cut -c1-160)"
done
