#!/bin/bash
# tryseed.sh ID... : apply each seeded patch in /repo, run the check of its property, undo
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  python3-vt check.py $p > /tmp/tryseed.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "== $i ($p) rc=$rc"; grep -a "VIOLATION\|violated:" /tmp/tryseed.log | cut -c1-300 | head -4
done
