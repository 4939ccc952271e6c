#!/bin/bash
# bugcheck.sh ID... : applies each planted bug to the scratch copy /tmp/wt, runs its property's check there, undoes it
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /tmp/wt apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  (cd /verif && VP_REPO=/tmp/wt timeout 900 python3-vt check.py $P > /tmp/bug.$id.log 2>&1); rc=$?
  git -C /tmp/wt checkout -q -- .
  echo "$id $P rc=$rc $(grep -m1 -B1 VIOLATION /tmp/bug.$id.log | head -1 | cut -c1-150)"
done
