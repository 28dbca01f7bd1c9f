#!/bin/bash
# Runs the registered check of each planted bug's property against a scratch copy with the bug.
# usage: runseeds.sh [id ...]
V="$(cd "$(dirname "$0")/.." && pwd)"; cd "$V"
ids="$*"; [ -z "$ids" ] && ids="$(ls seeded)"
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedrun.XXXXXX)
  git clone -q /repo "$t/repo" && git -C "$t/repo" apply "$V/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; rm -rf "$t"; continue; }
  s=$(date +%s)
  VERIF_REPO="$t/repo" VERIF_EVIDENCE="$t/ev.json" VERIF_REPLAYS="$t/rp" ./check.sh "$p" > "$t/out" 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" "$t/out"; then r=CAUGHT; else r="MISSED(rc $rc)"; fi
  echo "$i $p $r $(( $(date +%s)-s ))s  $(grep -v '^VIOLATION' "$t/out" | tail -2 | head -1 | cut -c1-160)"
  rm -rf "$t"
done
