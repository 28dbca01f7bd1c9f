#!/bin/bash
# check.sh ID [quick|thorough]   - decide one property on the current /repo working tree
# check.sh replay FILE           - re-execute a recorded violation
# VERIF_REPO overrides the library location (default /repo).
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
repo="${VERIF_REPO:-/repo}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH" && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
export HOME="${HOME:-/root}"
out="$(mktemp -d /tmp/vmc.XXXXXX)" || exit 2
trap 'rm -rf "$out"' EXIT
sed "s#=> /repo#=> $repo#" mc/go.mod > "$out/go.mod"
cp mc/go.sum "$out/go.sum"

if [ "$1" = replay ]; then
  id="$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)"
else
  id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
fi
export VERIF_OUT="$out" VERIF_REPO="$repo"
if [ "$id" = C29 ]; then
  . ./c29.sh
  exit
fi

# Files of each check, for the case that some unrelated part of the library's API no longer fits another check.
files() {
  local base="common.go main.go corpus.go letters.go"
  case "$1" in
    C07) echo $base c06.go;;
    C03) echo $base c03.go c02.go c01.go;;
    C05) echo $base c05.go c15.go c01.go;;
    C09) echo $base c09.go c08.go;;
    C34) echo $base c34.go c20.go c01.go c28.go c25.go c24.go;;
    C32) echo $base c32.go c10.go c11.go c09.go c08.go;;
    C33) echo $base c33.go;;
    C10|C11|C12) echo $base c10.go c11.go c09.go c08.go;;
    C14) echo $base c13.go;;
    C17) echo $base c16.go;;
    C19) echo $base c19.go c18.go;;
    C21|C22|C23) echo $base c20.go c01.go;;
    C24|C30) echo $base c24.go c20.go c01.go;;
    C26|C27) echo $base c25.go;;
    C28) echo $base c28.go c20.go c01.go c25.go c24.go;;
    *) echo $base "$(echo "$1" | tr C c).go" c01.go c20.go | tr ' ' '\n' | sort -u;;
  esac
}
build() { (cd mc && go build -modfile="$out/go.mod" -o "$out/mc" "$@") ; }
if ! build . 2>"$out/err"; then
  if ! build $(files "$id") 2>"$out/err2"; then
    export GOCACHE="$out/cache"     # an unusable default cache is the only excuse for another try
    if ! build . ; then cat "$out/err" >&2; echo "check.sh: the library does not build" >&2; exit 2; fi
  fi
fi
if [ "$1" = replay ]; then "$out/mc" replay "$2"; exit $?; fi
"$out/mc" run "$id" "$tier" 2>"$out/stderr"; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # A Go "fatal error" (stack overflow, out of memory, concurrent map access) or an unrecovered panic in
  # library code kills the explorer: that is a crash of the code under test, not of the check.
  if grep -qE '^(fatal error:|panic:|runtime:)' "$out/stderr" && ! grep -q 'explorer:' "$out/stderr" && grep -q 'Wieku/gosu-pp' "$out/stderr"; then
    mkdir -p replays; head -c 20000 "$out/stderr" > "replays/$id-crash.txt"
    head -n 12 "$out/stderr"
    echo "VIOLATION property=$id replay=replays/$id-crash.txt"
    rc=1
  fi
fi
head -c 8000 "$out/stderr" >&2
exit $rc
