#!/bin/bash
# run the check of its property against a planted change (in a scratch copy): seedcheck.sh ID...
for id in "$@"; do
  s=/verif/seeded/$id; t=$(mktemp -d /tmp/seed.XXXX)
  git -C /repo archive HEAD | tar x -C $t && (cd $t && git init -q . && git apply $s/patch.diff) || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t0=$SECONDS
  out=$(cd /verif && REPO=$t /opt/veriftools/pyvenv/bin/python check.py ${PROP:-$p} 2>&1); rc=$?
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -m1 VIOLATION) | $(echo "$out" | grep -m1 FAIL)"
  [ -n "$V" ] && echo "$out" | grep failed
  rm -rf "$t"
done
