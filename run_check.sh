#!/bin/bash
# run_check.sh <property> [extra harness arguments]
# Builds the library from $VP_REPO (default /repo) and the harness, then searches for violations of one property.
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; shift
SEED="${VERIF_SEED:-1}"; TIER="${VERIF_TIER:-quick}"
OUT="$(python3 "$V/tools/build.py")" || { echo "build failed" >&2; exit 4; }
LIB="$(echo "$OUT" | sed -n 1p)"; HAR="$(echo "$OUT" | sed -n 2p)"
B="${VP_BUILD:-$V/build}"
mkdir -p "$V/evidence" "$V/replays"
TMP="$(mktemp -d "$B/run.XXXXXX")" || exit 4
trap 'rm -rf "$TMP"' EXIT
"$HAR" --prop "$ID" --tier "$TIER" --seed "$SEED" --libdir "$LIB" --tmp "$TMP" \
  --evidence "${VP_EVIDENCE:-$V/evidence}/$ID.json" --replays "$V/replays" "$@"
