#!/bin/bash
# check.sh [-p PROP] ID...: applies each planted bug to /repo, runs the check of its property, undoes it
P=""; [ "$1" = "-p" ] && { P=$2; shift 2; }
for i in "$@"; do
  prop=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  git -C /repo checkout -q -- . ; git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$SECONDS
  (cd /verif && ./check.sh $prop quick > /tmp/kc-check.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$i $prop exit $r $((SECONDS-s))s: $(grep -E '^run [0-9]+ \(seed' /tmp/kc-check.log | cut -c1-140) | $(grep -B1 -E '^(C[0-9]+ quick)' /tmp/kc-check.log | head -1 | cut -c1-160)"
  [ $r = 2 ] && tail -5 /tmp/kc-check.log
done
