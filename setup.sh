#!/bin/bash
# Checks build everything they need themselves; this only shows that it builds.
set -eu
V=$(cd "$(dirname "$0")" && pwd)
. "$V/sim/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX")
trap 'rm -rf "$W"' EXIT
export GOCACHE="$W/gc" GOTMPDIR="$W" TMPDIR="$W"
bash "$V/sim/gen.sh" "$W" /repo
