#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it; prints what was caught
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  out=$(bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep VIOLATION | sed 's/.*replay=[^ ]*//') $(echo "$out" | grep -m1 FAILED-OBL | cut -c1-140)"
done
