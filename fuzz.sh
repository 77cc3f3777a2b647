#!/bin/bash
# fuzz.sh ID [SECONDS] - coverage-guided search (libFuzzer) over the choice sequences of one property.
# A failing sequence is shrunk and reported by vrun --input. Part of the thorough tier.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1 secs=${2:-240}
work="$VERIF_DIR/target/fuzz-work/$id"
rm -rf -- "$VERIF_DIR/target/fuzz-work/$id"
mkdir -p "$work/corpus" "$work/crash"
export CARGO_TARGET_DIR="$VERIF_DIR/target/fuzz"
log="$work/log"
if ! RUSTUP_TOOLCHAIN=nightly cargo fuzz build --fuzz-dir fuzz -s none --release props >"$log" 2>&1; then
  tail -20 "$log"; echo "CHECK-ERROR: fuzz build failed"; exit 2
fi
bin=$(find "$CARGO_TARGET_DIR" -path '*/release/props' -type f | head -1)
target/release/vrun "$id" --cases 300 --seeds "$work/corpus" || exit 2
VERIF_PROP=$id timeout $((secs + 60)) "$bin" "$work/corpus" -fork=8 -max_total_time="$secs" -timeout=60 -rss_limit_mb=3000 \
  -max_len=4096 -len_control=0 -seed="$VERIF_SEED" -artifact_prefix="$work/crash/" >"$log" 2>&1
execs=$(grep -oE '^#[0-9]+' "$log" | tail -1 | tr -d '#')
cov=$(grep -oE 'cov: [0-9]+' "$log" | tail -1 | tr -dc 0-9)
echo "$id: libFuzzer ran ${execs:-0} inputs, ${cov:-0} edges covered"
python3 - "$id" "${execs:-0}" "${cov:-0}" "$secs" <<'P'
import json,sys
f=f'evidence/{sys.argv[1]}.json'
try:
    e=json.load(open(f))
    e['coverage']['libfuzzer']={'executions':int(sys.argv[2]),'edges':int(sys.argv[3]),'seconds':int(sys.argv[4])}
    json.dump(e,open(f,'w'),indent=1)
except FileNotFoundError: pass
P
rc=0
for c in "$work"/crash/*; do
  [ -f "$c" ] || continue
  case $c in */oom-*|*/timeout-*) continue;; esac
  target/release/vrun "$id" --input "$c" || { rc=$?; break; }
done
rm -rf -- "$VERIF_DIR/target/fuzz-work/$id/corpus"
exit $rc
