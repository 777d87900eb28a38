#!/bin/bash
# lab.sh DIR IDS...: all quick checks against each behaviour-preserving edit, in a clone under DIR; every one has to
# be quiet. Environment: KC_RUNS (default 700), PROPS
D=$1; shift
[ -d $D/repo ] || {
  mkdir -p $D && git clone -q /repo $D/repo && cp /repo/Cargo.lock $D/repo/ 2>/dev/null
  git clone -q /verif $D/verif && rm -rf $D/verif/.git
  sed -i "s#/repo/#$D/repo/#g" $D/verif/sim/Cargo.toml $D/verif/sim/capi/*
}
export KC_RUNS=${KC_RUNS:-700}
for i in "$@"; do
  git -C $D/repo checkout -q -- . ; git -C $D/repo apply /verif/tools/quiet/$i.diff || { echo "$i does not apply"; continue; }
  for p in ${PROPS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}; do
    (cd $D/verif && ./check.sh $p quick > $D/out.log 2>&1); r=$?
    [ $r = 0 ] || { echo "$i $p exit $r: $(grep -E '^run [0-9]+ \(seed' $D/out.log | cut -c1-200)" | tee -a $D/quiet.txt; cp $D/out.log $D/$i-$p.log; cp $D/verif/evidence/replays/$p-*.json $D/ 2>/dev/null; rm -f $D/verif/evidence/replays/*; }
  done
  git -C $D/repo checkout -q -- .
  echo "$i done" | tee -a $D/quiet.txt
done
