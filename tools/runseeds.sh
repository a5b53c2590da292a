#!/bin/bash
# run the check of each seeded change's property against a scratch copy with the change; prints caught/missed
for d in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rs_XXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$d/patch.diff
  out=$(cd /verif && CHUMPY_ROOT=$w/repo VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -A3 VIOLATION | tr '\n' '|' | cut -c1-330) [cases $(echo "$out" | grep -c "  case") obligations $(echo "$out" | grep -c "failed obligation")]"
  rm -rf $w
done
