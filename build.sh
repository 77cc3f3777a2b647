#!/bin/bash
# Builds the harness (and with it the library from /repo's working tree).
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=$(mktemp)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
