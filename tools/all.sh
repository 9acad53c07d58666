#!/bin/sh
# Run every registered check on /repo: status and time.
cd /verif
for i in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])") "$@"; do
  s=$(date +%s); python3 check.py $i > /tmp/all.$i 2>&1; r=$?; e=$(date +%s)
  echo "$i rc=$r $((e-s))s $(grep -c 'NOT ANALYSED' /tmp/all.$i) $(tail -1 /tmp/all.$i | cut -c1-120)"
done
