#!/bin/bash
# lab.sh DIR [-p PROP] ID...: like check.sh, in a copy of /verif and /repo under DIR (made from the committed
# state when missing), so that work can go on meanwhile. Results are appended to DIR/results.txt.
D=$1; shift
P=""; [ "$1" = "-p" ] && { P=$2; shift 2; }
if [ ! -d $D/repo ]; then
  mkdir -p $D && git clone -q /repo $D/repo && cp /repo/Cargo.lock $D/repo/ 2>/dev/null
  git clone -q /verif $D/verif && rm -rf $D/verif/.git
  sed -i "s#/repo/#$D/repo/#g" $D/verif/sim/Cargo.toml $D/verif/sim/capi/*
fi
for i in "$@"; do
  prop=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  git -C $D/repo checkout -q -- . ; git -C $D/repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$SECONDS
  (cd $D/verif && ./check.sh $prop quick > $D/out.log 2>&1); r=$?
  git -C $D/repo checkout -q -- .
  echo "$i $prop exit $r $((SECONDS-s))s: $(grep -E '^run [0-9]+ \(seed' $D/out.log | cut -c1-140)" | tee -a $D/results.txt
  [ $r = 1 ] && sed -nE "s/^run ([0-9]+) .seed [0-9]+.: ([A-Z_]+) in ([a-z-]+);.*/$i\t\2\t\3\trun \1/p" $D/out.log >> $D/caught.txt
  [ $r = 2 ] && tail -5 $D/out.log
done
