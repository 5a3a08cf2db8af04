#!/bin/bash
# run the check of a planted bug's property (or the named checks) against a scratch copy with the bug
# usage: detect.sh ID [PROP ...]
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
props=${@:-$p}
w=/tmp/detect-$id
rm -rf "$w"; cp -a /repo "$w"
git -C "$w" apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$w"; exit; }
for c in $props; do
  t=$(date +%s)
  o=$(cd /verif && VERIF_SEED=${SEED:-1} SIM_REPO=$w /opt/venv/bin/python check.py $c --tier quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(($(date +%s)-t))s $(echo "$o" | grep -E 'VIOLATION|error' | head -2 | cut -c1-160 | tr '\n' ' ')"
done
rm -rf "$w"
