#!/bin/bash
# seedcheck.sh [ID...]: apply each planted bug to /repo, run its property's check, undo.
cd /verif
for id in ${@:-$(ls seeded)}; do
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || continue
 out=$(timeout 880 python3-vt fv/run.py $P 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $P rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -m1 ^VIOLATION | cut -c1-160)"
done
