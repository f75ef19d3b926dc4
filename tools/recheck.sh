#!/bin/bash
# recheck.sh ID...: run each seeded bug's check against a scratch copy of /repo with the bug applied
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  wt=/tmp/rc-$id; rm -rf "$wt"; cp -a /repo "$wt"
  (cd "$wt" && git apply "$d/patch.diff") || { echo "$id: patch fails"; rm -rf "$wt"; continue; }
  out=$(unshare -Urm bash -c "mount --bind $wt /repo && cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 850 python3 -m sim check $prop --tier quick" 2>&1); rc=$?
  echo "$id: rc=$rc $(echo "$out" | grep -m1 '^VIOLATION\|Error')"
  [ $rc = 1 ] || echo "$out" | tail -3
  rm -rf "$wt"
done
