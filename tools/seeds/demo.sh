#!/bin/bash
# Runs the demonstration program beside this script against the library in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here"/*.go "$t"/
printf 'module demo\n\ngo 1.21\n\nrequire github.com/Wieku/gosu-pp v0.0.0\nrequire golang.org/x/text v0.3.7\n\nreplace github.com/Wieku/gosu-pp => %s\n' "$PWD" > "$t/go.mod"
cp go.sum "$t/go.sum"
(cd "$t" && go build FLAGS -o demo . ) || exit 3
GORACE="exitcode=66" timeout 120 "$t/demo" > "$t/out.txt" 2>"$t/err.txt" || { echo "demo failed"; head -c 1500 "$t/err.txt"; exit 1; }
diff "$here/expected.txt" "$t/out.txt" || exit 1
