#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the simulator and its harness from /repo's working tree in a scratch
# directory, runs the seeded search for PROPERTY, removes the scratch directory.
# Exit 0: held; 1: violated (VIOLATION line); anything else: no answer.
set -u
V=$(cd "$(dirname "$0")" && pwd)
PROP=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
. "$V/sim/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
export GOCACHE="$W/gc" GOTMPDIR="$W" TMPDIR="$W"
MIX=$(awk -v p="$PROP" '$1==p {print $2}' "$V/sim/mixes")
[ -n "$MIX" ] || { echo "no scenarios for $PROP"; exit 2; }
SECS=$(awk -v p="$PROP" -v t="$TIER" '$1==p {print t=="thorough" ? $4 : $3}' "$V/sim/mixes")
SECS=${VERIF_SECS:-$SECS}
BINS=""; NEED=""
IFS=';' read -ra G <<<"$MIX"
for g in "${G[@]}"; do BINS="$BINS${BINS:+;}$W/$g"; NEED="$NEED ${g%%:*}"; done
if ! bash "$V/sim/gen.sh" "$W" "$REPO" $NEED >"$W/build.log" 2>&1; then
	tail -30 "$W/build.log"; echo "the tree could not be built under the simulator"; exit 2
fi
"$W/${G[0]%%:*}" -mode check -prop "$PROP" -tier "$TIER" -seed "$SEED" -bins "$BINS" -secs "$SECS" -verif "$V" -workers 8
RC=$?
exit $RC
