#!/bin/bash
# Builds the explorer once from the committed files and the current library (warms the compiler cache).
cd "$(dirname "$0")" || exit 1
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
out="$(mktemp -d /tmp/vmc.XXXXXX)" || exit 1
trap 'rm -rf "$out"' EXIT
cp mc/go.mod "$out/go.mod"; cp mc/go.sum "$out/go.sum"
cd mc && go build -modfile="$out/go.mod" -o "$out/mc" .
