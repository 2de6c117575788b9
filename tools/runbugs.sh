#!/bin/bash
# Development tool: run a property's quick check against planted bugs (all, or the named ones).
cd /verif
for id in ${*:-$(ls seeded)}; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
    t=$(date +%s)
    out=$(timeout 900 python3-vt check.py $prop 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep VIOLATION <<<"$out" | head -1)"
done
