#!/bin/bash
# check.sh <property> [quick|thorough]: build the harness against /repo's working tree and run one property.
# exit 0 held, 1 violation (VIOLATION line), 3 the check itself could not run.
cd "$(dirname "$0")" || exit 3
. ./env.sh
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
mkdir -p evidence replays
. ./variant.sh
LOG="$(mktemp)"
if ! ( cd harness && cargo build --offline $FEATURES ) >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2; rm -f "$LOG"; echo "check.sh: build failed" >&2; exit 3
fi
rm -f "$LOG"
"$CARGO_TARGET_DIR/debug/vh" run "$P" --tier "$TIER" --seed "$SEED" --dir "$PWD"
RC=$?
# the thorough tier of C14 adds a coverage-guided search
if [ "$RC" = 0 ] && [ "$P" = C14 ] && [ "$TIER" = thorough ]; then
  bash ./fuzz.sh "${FUZZ_SECONDS:-1800}"; RC=$?
fi
exit $RC
