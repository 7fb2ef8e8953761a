#!/bin/bash
# Runs a property's check against planted changes, each in a scratch copy:
# tools/seedtest.sh [id...]   (developer tool; no registered check uses it)
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# -eq 0 ] && set -- $(ls "$V/seeded")
for id in "$@"; do
  T=$(mktemp -d); cp -a /repo/. "$T"; git -C "$T" checkout -q -- .
  if ! git -C "$T" apply "$V/seeded/$id/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$T"; continue; fi
  P=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  O=$(mktemp -d); cp -a "$V/bin" "$V/contracts" "$V/known-findings.txt" "$V/replay" "$O"; cp -a "$V/overlay" "$V/gen" "$O"
  s=$(date +%s); out=$(VERIF_DIR=$O VERIF_SEED=1 GCV_REPO="$T" "$V/bin/gcv" check "$P" 2>&1); rc=$?
  echo "$id [$P] rc=$rc $(( $(date +%s)-s ))s: $(echo "$out" | cut -c1-110 | sed -n '1,2p' | tr '\n' ';') $(echo "$out" | tail -1 | grep -o 'no-failing-input-found' || echo "$out" | tail -1 | grep -o VIOLATION)"
  [ -n "$SHOW" ] && cat "$O/out/"* | cut -c1-300 | head -${SHOW}
  rm -rf "$T" "$O"
done
