#!/bin/bash
# check.sh <property>: builds the monitors against /repo's working tree and runs the property's check.
# Exit 0: held on everything observed; 1 with a VIOLATION line: violated; anything else: no answer.
cd "$(dirname "$0")" || exit 2
export PV_ROOT="$PWD" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p evidence replays
if [ "$1" = U01 ]; then exec python3 tools/u01.py; fi
if ! tools/build.sh >replays/build-$1.log 2>&1; then
  echo "INCONCLUSIVE property=$1 the monitors do not build against /repo:"; tail -40 replays/build-$1.log; exit 2
fi
exec target/debug/pv check "$1"
