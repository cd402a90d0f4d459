#!/bin/bash
# try.sh SEED [PROP...]: run checks against a planted bug in a scratch copy of /repo/src
set -u
d=$(mktemp -d); cp -a /repo/src /repo/*.sh "$d"/; (cd "$d" && patch -s -p1 < /verif/seeded/$1/patch.diff)
shift_id=$1; shift
props=("$@"); [ $# -eq 0 ] && props=($(python3 -c "import json;print(json.load(open('/verif/seeded/$shift_id/meta.json'))['property'])"))
for p in "${props[@]}"; do
  cp /verif/evidence/$p.json $d/ev.json 2>/dev/null
  ACETIME_SRC=$d/src python3 -B /verif/check.py $p > $d/out 2>&1; rc=$?
  echo "$shift_id $p exit=$rc"; grep -E "^FINDING|Traceback|Error" $d/out | cut -c1-400 | head -${LINES_MAX:-4}
done
rm -rf "$d"
