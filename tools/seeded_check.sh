#!/bin/bash
# seeded_check.sh [id...]: runs the claimed check of each planted change against it (git apply / undo in /repo)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
  o=$(timeout 900 python3 check.py $p 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -v VIOLATION | grep -v OK | head -${N:-1} | cut -c1-220)"
done
