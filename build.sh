#!/bin/bash
# Builds the simulator from /repo's current working tree.
#   build.sh OUT [plain|race|both]
# Produces OUT/sim (and OUT/sim-race). Exit code 3 on failure.
set -u
. /opt/vp/env.sh
VERIF=$(cd "$(dirname "$0")" && pwd)
OUT=$1; WHAT=${2:-both}
REPO=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOEXPERIMENT=norandomizedheapbase64
export GOCACHE=${VERIF_GOCACHE:-$VERIF/.build/gocache}
mkdir -p "$OUT" "$GOCACHE" || exit 3
OUT=$(cd "$OUT" && pwd)
MODC=$(go env GOMODCACHE)
( cd "$VERIF/sim/gen" && GOEXPERIMENT= go build -o "$OUT/verifgen" . ) || exit 3
"$OUT/verifgen" "$REPO" "$VERIF/sim" "$MODC" "$OUT/src" >&2 || exit 3
cd "$OUT/src/harness" || exit 3
one() { # name, extra flags
  local o=$1; shift
  go build "$@" -overlay "$OUT/src/overlay.json" -ldflags=-checklinkname=0 \
     -gcflags='verifsim=-race=false' -gcflags='vsimrt=-race=false' -o "$OUT/$o" . 
}
rc=0
case $WHAT in
 plain) one sim || rc=3;;
 race)  one sim-race -race || rc=3;;
 both)  one sim & p1=$!; one sim-race -race & p2=$!; wait $p1 || rc=3; wait $p2 || rc=3;;
esac
exit $rc
