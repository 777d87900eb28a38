#!/bin/bash
# try.sh ID...: builds, tests and demonstrates each planted bug in the scratch copy /tmp/kc
export KCDEMO_TARGET=/tmp/kcdemo-target
for i in "$@"; do
  cd /tmp/kc && git checkout -q -- . && git apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  sed 's#/repo#/tmp/kc#g' /opt/vp/build.sh > /tmp/kc-build.sh; sed 's#/repo#/tmp/kc#g' /opt/vp/test.sh > /tmp/kc-test.sh
  bash /tmp/kc-build.sh > /tmp/kc-build.log 2>&1 || { echo "$i: does not build"; grep -A9 '^error' /tmp/kc-build.log | head -40; git checkout -q -- .; continue; }
  bash /tmp/kc-test.sh /tmp/kc-out.json > /tmp/kc-test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/kc-out.json'))
print('%s'%(len(o.get('passed',o.get('pass',[])))))")
  bash /verif/seeded/$i/demo.sh > /tmp/kc-demo1.log 2>&1; b=$?
  git checkout -q -- .
  bash /verif/seeded/$i/demo.sh > /tmp/kc-demo0.log 2>&1; a=$?
  echo "$i: tests passed $t, demo clean $a, demo patched $b: $(tail -1 /tmp/kc-demo1.log | cut -c1-150)"
  [ $a = 0 ] || tail -5 /tmp/kc-demo0.log
  [ $b = 9 ] && tail -20 /tmp/kc-demo1.log
done
