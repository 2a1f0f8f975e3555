#!/bin/bash
# seedrun.sh OUT [ids...]: apply each planted change to /repo in turn, run its property's quick check, undo it. (Development aid, no check uses it.)
out=$1; shift
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  s=/verif/seeded/$id; p=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  git -C /repo checkout -q -- . ; git -C /repo apply $s/patch.diff || { echo "$id $p APPLYFAIL" >> $out; continue; }
  a=$(date +%s); timeout 900 ./check.sh $p > /tmp/seed/out/$id.$p.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-a ))s $(grep -m1 VIOLATION /tmp/seed/out/$id.$p.log)" >> $out
done
