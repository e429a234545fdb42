#!/bin/bash
# bash tools/trybugs.sh [id...]: applies each planted change to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s); out=$(bash run.sh $p 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<< "$out"; then echo "$d: caught by $p in $((e-s)) s: $(grep -m1 -A1 '^VIOLATION' <<< "$out" | tail -1 | cut -c1-150)"; else echo "$d: MISSED by $p (exit $rc) $((e-s)) s: $(tail -1 <<< "$out")"; fi
done
