#!/bin/bash
# Runs one replay program by hand: tools/replay.sh C13 [repo]
V="$(cd "$(dirname "$0")/.." && pwd)"; R=${2:-/repo}
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
p=$(echo "$1" | tr A-Z a-z); T=$(mktemp -d); rc=0
for k in srpc rpcstream; do
  f=$V/replay/$k/${p}_test.go; [ -f "$f" ] || continue
  u=""; [ -f "$V/replay/$k/util_test.go" ] && u=",\"$R/$k/zz_verif_util_test.go\":\"$V/replay/$k/util_test.go\""
  echo "{\"Replace\":{\"$R/$k/zz_verif_replay_test.go\":\"$f\"$u}}" >"$T/ov.json"
  (cd "$R" && go test -overlay "$T/ov.json" -vet=off -count=1 -run '^TestVerifReplay' -timeout 120s $3 ./$k) || rc=1
done
rm -rf "$T"; exit $rc
