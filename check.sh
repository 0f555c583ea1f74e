#!/bin/bash
# check.sh PROPERTY            decide one property on /repo's current tree
# check.sh --replay FILE       re-execute a recorded violation exactly
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough),
#   VERIF_CAP seconds of search, VERIF_RUNS number of runs,
#   VERIF_BIN directory with binaries already built (skips the build)
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_KNOWN=$VERIF/known-findings.json
SEED=${VERIF_SEED:-1}; TIER=${VERIF_TIER:-quick}
case $SEED in ''|*[!0-9]*) SEED=1;; esac
REPLAY=""; PROP=${1:-}
if [ "$PROP" = --replay ]; then REPLAY=$2; PROP=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$REPLAY") || exit 3; fi
[ -n "$PROP" ] || { echo "usage: check.sh PROPERTY | --replay FILE" >&2; exit 2; }
if [ -n "${VERIF_BIN:-}" ]; then OUT=$VERIF_BIN; else
  mkdir -p "$VERIF/.build"
  OUT=$(mktemp -d "$VERIF/.build/out.XXXXXX") || exit 3
  trap 'rm -rf "$OUT"' EXIT
  WHAT=both
  case $PROP in C01|C02|C03|C04|C06|C07|C10|C11|C12|C13|C14|C15|C16|C17|C19|C20|C21|C22|C23|C25|C26) WHAT=plain;; esac
  "$VERIF/build.sh" "$OUT" $WHAT || { echo "build of the simulator failed" >&2; exit 3; }
fi
if [ -n "$REPLAY" ]; then "$OUT/sim" drive -replay "$REPLAY" -out "$OUT" -verif "$VERIF"; exit $?; fi
"$OUT/sim" drive -prop "$PROP" -tier "$TIER" -seed "$SEED" -out "$OUT" -verif "$VERIF" -cap "${VERIF_CAP:-0}" -runs "${VERIF_RUNS:-0}"
