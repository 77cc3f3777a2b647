#!/bin/bash
# check.sh ID - builds the harness against /repo's working tree and runs one property.
# VERIF_SEED (default 1) seeds every random choice; VERIF_TIER=quick|thorough chooses the depth.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || { echo "CHECK-ERROR: build failed"; exit 2; }
ID=$1
shift
"$CARGO_TARGET_DIR/release/vrun" "$ID" "$@"
r=$?
[ $r -eq 0 ] || exit $r
if [ "$VERIF_TIER" = thorough ] && [ $# -eq 0 ] && [ -f fuzz.sh ]; then
  bash ./fuzz.sh "$ID" || exit $?
fi
exit 0
