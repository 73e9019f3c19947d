#!/bin/bash
# run each planted bug against its property's quick check
cd /verif
for d in ${@:-$(ls seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
 s=$(date +%s)
 python3 check.py $p quick > /tmp/bug.$d 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/bug.$d)"
done
