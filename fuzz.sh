#!/bin/bash
# Coverage-guided part of C14's thorough tier.
#   fuzz.sh [seconds]       search; exit 0 nothing found, 1 violation, 3 could not run
#   fuzz.sh replay <file>   run one input
cd "$(dirname "$0")" || exit 3
. ./env.sh
V="$PWD"; T="$CARGO_TARGET_DIR/fuzz"; W="$T/work"
LOG="$(mktemp)"
# the generator of the first inputs
if ! ( cd harness && cargo build --offline ) >"$LOG" 2>&1; then
  tail -30 "$LOG" >&2; rm -f "$LOG"; echo "fuzz.sh: build failed" >&2; exit 3
fi
export RUSTFLAGS="$RUSTFLAGS --cfg clickhouse_rs_verify_packets"
if ! RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo fuzz build --fuzz-dir "$V/fuzz" --target-dir "$T" packets >"$LOG" 2>&1; then
  tail -30 "$LOG" >&2; rm -f "$LOG"; echo "fuzz.sh: build failed" >&2; exit 3
fi
rm -f "$LOG"
BIN="$T/x86_64-unknown-linux-gnu/release/packets"
LIMITS="-rss_limit_mb=3000 -malloc_limit_mb=1200 -timeout=60"
if [ "$1" = replay ]; then
  exec "$BIN" $LIMITS "$2"
fi
SEC="${1:-1800}"
rm -rf "$W"; mkdir -p "$W/corpus" "$W/found" replays evidence
"$CARGO_TARGET_DIR/debug/vh" corpus "$W/seeds" 6000 "${VERIF_SEED:-1}" || exit 3
( cd "$W" && "$BIN" corpus seeds -dict="$V/fuzz/dict" -max_len=6000 $LIMITS -fork="$(nproc)" -max_total_time="$SEC" -artifact_prefix="$W/found/" -seed="${VERIF_SEED:-1}" ) >"$W/log" 2>&1
F="$(find "$W/found" -type f ! -name 'slow-unit-*' | head -1)"
STAT="$(grep -a '^#[0-9]' "$W/log" | tail -1)"
echo "fuzz: $STAT"
if [ -z "$F" ]; then
  if ! grep -qa '^INFO: exiting: 0 ' "$W/log"; then tail -20 "$W/log" >&2; echo "fuzz.sh: the search did not end well" >&2; exit 3; fi
  python3 - "$V/evidence/C14.json" "$STAT" "$SEC" "$(ls "$W/seeds" | wc -l)" "$(ls "$W/corpus" | wc -l)" <<'P'
import sys, json, re
p, stat, sec, seeds, corpus = sys.argv[1:6]
e = json.load(open(p))
n = int(re.match(r'#(\d+)', stat).group(1)) if stat.startswith('#') else 0
m = re.search(r'cov: (\d+) ft: (\d+)', stat)
e['coverage']['coverage_guided'] = {'inputs': n, 'seconds': int(sec), 'seed_inputs': int(seeds), 'inputs_kept_for_new_coverage': int(corpus), 'edges': int(m.group(1)) if m else 0, 'features': int(m.group(2)) if m else 0}
json.dump(e, open(p, 'w'), indent=1)
P
  exit 0
fi
# smaller, while it still fails
if "$BIN" $LIMITS "$F" >/dev/null 2>&1; then
  echo "fuzz: $F did not fail again; kept for inspection" >&2; exit 3
fi
"$BIN" $LIMITS -minimize_crash=1 -max_total_time=60 -exact_artifact_path="$W/min" "$F" >/dev/null 2>&1
if [ -s "$W/min" ] && ! "$BIN" $LIMITS "$W/min" >/dev/null 2>&1; then F="$W/min"; fi
R="$V/replays/C14-fuzz-$(sha256sum "$F" | cut -c1-12).bin"
cp "$F" "$R"
"$BIN" $LIMITS "$R" 2>&1 | grep -a -m1 -A2 'panicked\|ERROR' | cut -c1-600
echo "replay with: bash fuzz.sh replay $R"
echo "VIOLATION property=C14 replay=$R"
exit 1
