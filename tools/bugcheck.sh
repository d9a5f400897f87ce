#!/bin/bash
# runs the property's quick check on a copy of /repo with a planted bug: tools/bugcheck.sh ID...
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  W=$(mktemp -d /tmp/bc.XXXXXX); cp -a /repo/include "$W/"; cp -a /repo/.git "$W/.git" 2>/dev/null; [ -d /repo/test ] && cp -a /repo/test "$W/"; cp -a /repo/src "$W/" 2>/dev/null
  (cd $W && git checkout -q -- . && git apply "$V/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); O=$(SV_REPO=$W python3 $V/tools/check.py $P 2>&1); rc=$?
  echo "$id ($P): exit $rc, $(( $(date +%s) - s )) s: $(echo "$O" | grep -m1 VIOLATION | cut -c1-300)"
  [ $rc -ne 1 ] && echo "$O" | tail -5
  rm -rf "$W"
done
