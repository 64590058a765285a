#!/bin/bash
# runs the check of each planted bug's property on the bug: catch.sh [ID...]
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  s=$(date +%s); python3 check.py $p quick > /tmp/catch.$$.out 2>&1; r=$?
  git -C /repo checkout -- .
  ob=$(grep -c "failed obligations" /tmp/catch.$$.out); echo "$i $p obligations=$ob exit $r $(( $(date +%s) - s )) s: $(grep -B1 VIOLATION /tmp/catch.$$.out | head -2 | cut -c1-200 | tr '\n' ' ')"
done
