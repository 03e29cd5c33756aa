#!/bin/bash
# tools/catch.sh ID...: apply each seeded patch to a copy of /repo and run its property's check against the copy
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  R=/tmp/w/catch-$id; rm -rf /tmp/w/catch-$id; mkdir -p $R; git -C /repo archive HEAD | tar -x -C $R
  (cd $R && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "no apply"
  s=$(date +%s); out=$(cd /verif && VERIF_REPO=$R VERIF_SCRATCH=/tmp/w ./check $p 2>&1); rc=$?
  echo "== $id $p rc=$rc $(( $(date +%s) - s ))s"; echo "$out" | grep -E "VIOLATION|UNDECIDED|obligation:|discharged" | cut -c1-200
  rm -rf /tmp/w/catch-$id
done
