#!/bin/bash
# caught.sh ID...: runs the check of each planted bug's property against a scratch copy with the bug.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/rc.$id; cp -a /repo /tmp/rc.$id; git -C /tmp/rc.$id checkout -q -- .; git -C /tmp/rc.$id apply "$d/patch.diff"
  s=$(date +%s)
  SYMGO_EVIDENCE=/tmp SYMGO_REPO=/tmp/rc.$id timeout 900 /verif/check.sh $p quick > /tmp/caught.$id 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/caught.$id)"
  rm -rf /tmp/rc.$id
done
