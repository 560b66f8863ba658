#!/bin/bash
# Development aid: run the quick checks of all (or the given) planted bugs against scratch copies of /repo.
cd /verif/seeded
for b in ${*:-$(ls)}; do
  d=$(mktemp -d /tmp/seed-XXXXXX); cp -a /repo $d/repo
  (cd $d/repo && git apply /verif/seeded/$b/patch.diff) || { echo "$b: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  VERIF_REPO=$d/repo timeout 900 /verif/run.sh $p quick > $d/out 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" $d/out; then echo "$b $p: caught  $(grep -m1 '  case' $d/out | cut -c1-150)"; else echo "$b $p: MISSED rc=$rc $(tail -1 $d/out | cut -c1-200)"; fi
  rm -rf "$d"
done
