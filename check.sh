#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--case PHASE:INDEX] [-v]
# exit 0: held on everything observed; 1: VIOLATION; 3: inconclusive (nothing is claimed).
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
shift
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p "$HERE/evidence"
rm -f "$HERE/evidence/$ID.json"
CFGS=sp
[ "$ID" = C46 ] && CFGS="sp nosp bare rand"
if ! "$HERE/build.sh" $CFGS; then
  echo "INCONCLUSIVE: the monitors do not build against /repo"
  exit 3
fi
RUN=$(mktemp -d /tmp/mon.XXXXXX)
trap 'rm -rf "$RUN"' EXIT
MON_BUILDS="$HERE/build" "$HERE/build/sp/debug/mon" "$ID" --evidence "$HERE/evidence/$ID.json" \
  --known "$HERE/known-findings.txt" --replay-dir "$HERE/replays" --run-dir "$RUN" "$@"
