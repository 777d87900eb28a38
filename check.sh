#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator around /repo's working tree and
# searches for violations of the property. Exit 0 held, 1 violated, 2 the check itself failed.
cd "$(dirname "$0")" || exit 2
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
log=$(mktemp /tmp/kcsim-build.XXXXXX)
if ! sim/build.sh >"$log" 2>&1; then
  tail -60 "$log"; rm -f "$log"; echo "the simulator does not build"; exit 2
fi
rm -f "$log"
case "$TIER" in
  thorough) RUNS=400000; SECS=1500 ;;
  *) RUNS=4000; SECS=100 ;;
esac
exec target/release/kcsim run --property "$P" --tier "$TIER" --seed "$SEED" --runs "${KC_RUNS:-$RUNS}" --secs "${KC_SECS:-$SECS}" --dir "$PWD"
