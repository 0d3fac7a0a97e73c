#!/bin/bash
# try_seed.sh ids...: run the property's check against each planted change
for i in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
cd /verif; S=$(date +%s); timeout 900 python3 check.py $p > /tmp/try.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$i $p rc=$rc $(( $(date +%s) - S ))s $(grep -m1 -A1 VIOLATION /tmp/try.log | tr '\n' ' ' | cut -c1-220)"
done
