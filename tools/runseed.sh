#!/bin/bash
# runseed.sh ID...: applies a planted bug to /repo, runs its property's check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(cd /verif && timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -E '^VIOLATION|undecided' | tail -3 | tr '\n' ' ')"
  head -c 600 /verif/replays/$p.txt 2>/dev/null | head -3
done
