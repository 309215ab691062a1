#!/bin/bash
# Runs the quick check of each planted change's property on a scratch copy of /repo with the change applied: tryseeds.sh [NAME...]
. /opt/vp/env.sh
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  r=$(mktemp -d /tmp/tryseed.XXXX)
  git clone -q /repo $r/repo
  if ! git -C $r/repo apply /verif/seeded/$s/patch.diff; then echo "$s: patch does not apply"; rm -rf "$r"; continue; fi
  t0=$(date +%s)
  VERIF_REPO=$r/repo VERIF_SEED=1 /opt/venv/bin/python check.py $p > $r/out 2>&1
  rc=$?
  echo "$s $p rc=$rc $(grep -c '^VIOLATION' $r/out) violations $(( $(date +%s)-t0 ))s"
  [ $rc = 1 ] || tail -3 $r/out | cut -c1-300
  rm -rf "$r"
done
