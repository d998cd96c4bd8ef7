#!/bin/bash
# usage: replay.sh FILE [-v]   - rebuild from /repo and replay a recorded violation
# Exit 1 when the violation is reproduced.
set -u
V=$(cd "$(dirname "$0")" && pwd)
F=$(realpath "${1:?replay file}"); shift
. "$V/sim/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
export GOCACHE="$W/gc" GOTMPDIR="$W" TMPDIR="$W"
bash "$V/sim/gen.sh" "$W" "${VERIF_REPO:-/repo}" >"$W/build.log" 2>&1 || { tail -30 "$W/build.log"; exit 2; }
SC=$(grep -o '"scenario": *"[^"]*"' "$F" | head -1 | sed 's/.*"\([^"]*\)"$/\1/')
B=hnode; "$W/hcomp" -mode has -scen "$SC" 2>/dev/null && B=hcomp
"$W/$B" -mode replay -file "$F" "$@"
