#!/bin/bash
# bugs.sh [ID...] -- applies each planted bug to /repo, runs its property's check, undoes it. (Needs a clean /repo.)
cd "$(dirname "$0")" || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  out=$(bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc $rc $(echo "$out" | grep -m1 '^run ') | $(echo "$out" | grep 'minimised\|replay in')" | tr '\n' ' '; echo
done
