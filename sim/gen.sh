#!/bin/bash
# usage: gen.sh OUT [REPO [HARNESS...]]  - rewrite the tree into OUT and build the
# harnesses there (default: all)
set -eu
OUT=$1; REPO=${2:-/repo}; shift; [ $# = 0 ] || shift
[ $# != 0 ] || set -- hnode hcomp
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
(cd "$V/sim/rewrite" && go build -o "$OUT/rw" .)
rm -rf "$OUT/src"
"$OUT/rw" -src "$REPO" -out "$OUT/src" -shims "$V/sim/shim"
# min/max need go 1.21; loop variables keep the pre-1.22 meaning the repository has
sed -E 's/^go 1\.(1[0-9]|20)(\.[0-9]+)?$/go 1.21/' "$REPO/go.mod" > "$OUT/src/go.mod"
for d in simrt hx ref hnode hcomp; do cp -r "$V/sim/$d" "$OUT/src/verifsim/"; done
cd "$OUT/src"
for h in "$@"; do go build -tags verif -o "$OUT/$h" ./verifsim/$h; done
