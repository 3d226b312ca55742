#!/bin/bash
# catch.sh id... : run the property's check against each planted bug, on a copy via VP_REPO_SRC? no: on /repo
for i in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
s=$(date +%s); o=$(cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?; git -C /repo checkout -q -- .
echo "$i rc=$rc $(( $(date +%s)-s ))s :: $(echo "$o" | grep -c refuted) refuted, $(echo "$o"|grep -c undecided) undecided :: $(echo "$o" | grep VIOLATION | sed 's/.*replay=[^ ]*//')"
done
