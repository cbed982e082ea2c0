#!/bin/bash
# seedcheck.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); o=$(bash check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 'violation class' <<<"$o") $(grep -m1 'found in' <<<"$o")"
done
