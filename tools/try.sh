#!/bin/bash
# try.sh ID [CHECK...]: run checks against one planted change (VERIF_REPO scratch copy)
id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
[ $# = 0 ] && set -- $prop
w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || exit 9
for c in "$@"; do
  s=$(date +%s); VERIF_REPO=$w/repo VERIF_EVIDENCE=$w /verif/check.sh $c quick > $w/out 2>&1; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $w/out)"
done
rm -rf -- "$w"
