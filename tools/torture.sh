#!/bin/bash
# Differential test of the rewriter: a program made of all kinds of Go
# constructs must print the same when compiled as it is and when rewritten and
# run in the simulator (two processes at once, many seeds).
set -eu
V=$(cd "$(dirname "$0")/.." && pwd); T=$V/tools/torture
. "$V/sim/env.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/tort.XXXXXX"); trap 'rm -rf "$W"' EXIT
(cd "$V/sim/rewrite" && go build -o "$W/rw" .)
(cd "$T" && go build -o "$W/real" ./app)
"$W/real" >"$W/want" 2>/dev/null && rc=0 || rc=$?
echo "exit status $rc" >>"$W/want"
mkdir "$W/m"; cp -r "$T/go.mod" "$T/app" "$T/lib" "$W/m/"
"$W/rw" -src "$W/m" -out "$W/src" -shims "$V/sim/shim"
sed 's/^go 1.20$/go 1.21/' "$T/go.mod" >"$W/src/go.mod"
cp -r "$V/sim/simrt" "$W/src/verifsim/"; mkdir -p "$W/src/run"; cp "$T/run/main.go" "$W/src/run/"
(cd "$W/src" && go build -o "$W/sim" ./run)
bad=0
for s in $(seq 1 "${1:-60}"); do
	"$W/sim" "$s" "$(( (s % 4) * (s % 4) * 7 ))" "$W/got" 2>"$W/err" || { echo "seed $s failed"; tail -5 "$W/err"; bad=1; }
	for i in 0 1; do
		grep -v '^to stderr$' "$W/got.$i" | cmp -s - "$W/want" || { echo "seed $s process $i differs"; grep -v '^to stderr$' "$W/got.$i" | diff - "$W/want" | head -20; bad=1; break 2; }
	done
done
[ $bad = 0 ] && echo "torture: same output"
exit $bad
