#!/bin/bash
# usage: check.sh <PROPERTY> [--replay FILE]
# Rebuilds the monitor of one property from the current tree of /repo and runs it.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: error / inconclusive
ID="$1"
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
case "$ID" in
  C01|C02) AREA=cross ;;
  C03|C10|C11|C12|C13|C14|C15|C16|C17|C18|C19|C20|C40) AREA=lab ;;
  C04|C05|C06|C07|C08|C09|C41) AREA=sparse ;;
  C21|C22) AREA=stat ;;
  C23|C24|C25|C26) AREA=tensor ;;
  C27|C28|C29|C30|C31|C32) AREA=ode ;;
  C33|C34|C35|C36) AREA=pde ;;
  C37|C38|C39|C43|C44) AREA=nonlin ;;
  C42) AREA=sample ;;
  *) echo "ERROR: unknown property $ID"; exit 2 ;;
esac
# C03 spans dense and sparse operations
[ "$ID" = C03 ] && AREA=sparse
mkdir -p "$HERE/.build/log" "$HERE/evidence" "$HERE/.build/replays" || exit 2
export VERIF_KNOWN="$HERE/known_findings.txt" VERIF_EVIDENCE="$HERE/evidence" VERIF_REPLAYS="$HERE/.build/replays"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
LOG="$HERE/.build/log/$ID"
if ! cargo build --manifest-path "$HERE/harness/Cargo.toml" --offline --features "$AREA" --bin "h$AREA" >"$LOG.build" 2>&1; then
  tail -40 "$LOG.build"
  echo "ERROR: the monitor of $ID does not build"
  exit 2
fi
BIN="$CARGO_TARGET_DIR/debug/h$AREA"
if [ "$ID" = C02 ]; then
  if ! build_tsan >"$LOG.tsan" 2>&1; then
    tail -40 "$LOG.tsan"
    echo "ERROR: the monitor of $ID does not build with ThreadSanitizer"
    exit 2
  fi
  export VERIF_TSAN="$HERE/.build/tsan/x86_64-unknown-linux-gnu/debug/hcross"
fi
if [ "$ID" = C41 ]; then
  if ! build_cli >"$LOG.cli" 2>&1; then
    tail -40 "$LOG.cli"
    echo "ERROR: the program run by $ID does not build"
    exit 2
  fi
  export VERIF_CLI="$CARGO_TARGET_DIR/debug/solve_matrix_market"
fi
export VERIF_BIN="$BIN"
# private scratch directory for files written by the code under test
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX")" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH"
cd "$SCRATCH" || exit 2
if [ "$2" = "--replay" ]; then
  FILE="$3"
  export VERIF_SEED="$(sed -n 's/^seed=//p' "$FILE" | head -1)" VERIF_TIER="$(sed -n 's/^tier=//p' "$FILE" | head -1)"
  "$BIN" "$ID" --replay "$(sed -n 's/^label=//p' "$FILE" | head -1)" "$(sed -n 's/^index=//p' "$FILE" | head -1)"
  exit $?
fi
rm -f "$HERE/evidence/$ID.json"
LIMIT=840
[ "$VERIF_TIER" = thorough ] && LIMIT=3400
VERIF_FD3=1 timeout -k 10 "$LIMIT" "$BIN" "$ID" 3>&1 >/dev/null 2>"$LOG.err"
RC=$?
case $RC in
  0|1) exit $RC ;;
  132|134|136|139|7)
    tail -5 "$LOG.err"
    echo "the process running the code under test was killed by signal $((RC-128))"
    cp "$LOG.err" "$HERE/.build/replays/$ID-crash.txt"
    echo "VIOLATION property=$ID replay=$HERE/.build/replays/$ID-crash.txt"
    exit 1 ;;
  124|137) echo "INCONCLUSIVE: watchdog or memory limit (exit $RC)"; exit 3 ;;
  *) tail -5 "$LOG.err"; echo "ERROR: monitor ended with $RC"; exit 2 ;;
esac
