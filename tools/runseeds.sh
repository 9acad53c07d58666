#!/bin/bash
# runseeds.sh [filter]: run each seeded bug's own check (quick) against a copy with it applied
for d in /verif/seeded/*$1*/; do
  id=$(basename $d); pr=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/rs.XXXX); git -C /repo archive HEAD shellous | tar x -C $t
  (cd $t && patch -s -p1 < $d/patch.diff) || echo "!! $id patch"
  SHELLOUS_REPO=$t python3 /verif/check.py $pr >/tmp/rs.out 2>&1; rc=$?
  echo "$([ $rc = 1 ] && echo caught || echo "MISSED($rc)") $id $pr | $(grep -v '^VIOL\|^property' /tmp/rs.out | head -1 | cut -c1-160)"
  rm -rf $t
done
