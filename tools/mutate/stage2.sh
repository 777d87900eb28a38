#!/bin/bash
# stage2.sh MUTANTS.json IDS-FILE DIR OUT: all quick checks (KC_RUNS each) against each mutant until one reports it
M=$1; I=$2; D=$3; O=$4
[ -d $D/repo ] || {
  mkdir -p $D && git clone -q /repo $D/repo && cp /repo/Cargo.lock $D/repo/ 2>/dev/null
  git clone -q /verif $D/verif && rm -rf $D/verif/.git
  sed -i "s#/repo/#$D/repo/#g" $D/verif/sim/Cargo.toml $D/verif/sim/capi/*
}
export KC_RUNS=${KC_RUNS:-500} KC_SECS=${KC_SECS:-20}
for i in $(cat $I); do
  grep -q "^$i " $O 2>/dev/null && continue
  git -C $D/repo checkout -q -- .
  f=$(python3 - $M $i $D <<'P'
import json,sys
m=next(m for m in json.load(open(sys.argv[1])) if m['id']==sys.argv[2]); p=sys.argv[3]+'/repo/'+m['file']
L=open(p).read().split('\n'); assert L[m['line']-1]==m['old']; L[m['line']-1]=m['new']; open(p,'w').write('\n'.join(L)); print(m['file'])
P
)
  r="MISSED"; seen=""
  case $f in
    *crypt*) o="C04 C06 C05 C15 C12";; *data*) o="C12 C05 C10 C07";; *manager.rs) o="C05 C07 C14 C11 C06 C12";; *entropy*) o="C02 C03 C08";;
    *networks/*) o="C13 C09 C11 C14";; bip39*|*mnemonic*) o="C09 C05 C11 C02";; keychain-c*) o="C11 C10 C13";; secp*) o="C09 C13";; *error*) o="C11 C20";; *) o="C05";;
  esac
  for p in $o C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20; do
    case "$seen" in *" $p "*) continue;; esac; seen="$seen $p "
    (cd $D/verif && ./check.sh $p quick > $D/out.log 2>&1); c=$?
    if [ $c = 1 ]; then r="$p $(grep -E '^run [0-9]+ \(seed' $D/out.log | sed -E 's/\(seed [0-9]+\)//' | cut -c1-100)"; break; fi
    if [ $c != 0 ]; then r="BROKEN $p $c"; break; fi
  done
  echo "$i $f $r" >> $O
done
git -C $D/repo checkout -q -- .
