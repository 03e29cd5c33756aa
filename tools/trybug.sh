#!/bin/bash
# tools/trybug.sh ID...  confirm seeded bugs in a scratch copy: builds, stable tests pass, demo 0 unpatched / nonzero patched
# (works in a private mount of a copy bound at /repo, since the build tree has absolute paths)
set -u
W=/tmp/w/bug
[ -d $W ] || { mkdir -p /tmp/w; cp -a /repo $W; }
run() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1"; }
for id in "$@"; do
  D=/verif/seeded/$id
  git -C $W checkout -q -- . && git -C $W clean -qfd
  git -C $W fetch -q /repo HEAD 2>/dev/null && git -C $W reset -q --hard FETCH_HEAD
  run "bash /opt/vp/build.sh" >/tmp/w/bug.log 2>&1 || { echo "$id: clean build FAILED"; continue; }
  run "bash $D/demo.sh" >/tmp/w/demo0.log 2>&1; a=$?
  git -C $W apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  run "bash /opt/vp/test.sh /tmp/w/out.json" >/tmp/w/bug.log 2>&1; b=$?
  t=$(python3 - <<P
import json
o=json.load(open('/tmp/w/out.json')); base=json.load(open('/opt/vp/BASELINE.json'))
b=base.get('passed') or base.get('tests') or base.get('stable')
print(len([x for x in b if x not in o['passed']]))
P
)
  run "bash $D/demo.sh" >/tmp/w/demo1.log 2>&1; c=$?
  echo "$id: demo clean=$a (want 0) patched=$c (want !=0) missing stable tests=$t (want 0)"; tail -2 /tmp/w/demo1.log
  git -C $W checkout -q -- .
done
