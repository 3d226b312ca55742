#!/bin/bash
# catchc.sh id...: like catch.sh, on copies (VP_REPO_SRC), several at a time
one() { id=$1; d=/tmp/cc/$id; rm -rf "$d"; mkdir -p "$d"; cp -a /repo/src "$d/src"; (cd "$d" && git init -q . && git apply "/verif/seeded/$id/patch.diff") || { echo "$id patch fails"; return; }
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
t=$(date +%s); o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick VP_REPO_SRC=$d/src python3 check.py $p 2>&1); rc=$?
r=$(echo "$o" | grep -c "refuted"); u=$(echo "$o" | grep -c "undecided")
echo "$id rc=$rc $(( $(date +%s) - t ))s :: $r refuted, $u undecided :: $(echo "$o" | grep VIOLATION | head -1 | cut -c1-150)"; rm -rf "$d"; }
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
