#!/bin/bash
# Mutation testing of the contracts: tools/mutate.sh FILE.. (paths relative to /repo)
# prints the mutants which compile, change the file and which no contract refutes.
V="$(cd "$(dirname "$0")/.." && pwd)"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$T"' EXIT
printf 'module mutate\n\ngo 1.24\n' >"$T/go.mod"; cp "$V/tools/mutate/main.go" "$T/"; (cd "$T" && go build -o mutate .)
W=${W:-3}
for w in $(seq $W); do mkdir $T/r$w; (cd /repo && git archive HEAD | tar x -C $T/r$w); done
one() { # worker file index
  local R=$T/r$1 f=$2 n=$3 d out
  d=$("$T/mutate" /repo/$f $n $R/$f) || return
  if [ -n "$ONLY" ] && ! grep -qxF "$f:$d" "$ONLY"; then return; fi
  cmp -s <(gofmt /repo/$f) <(gofmt $R/$f) && return
  if ! (cd $R && go build ./$(dirname $f) >/dev/null 2>&1); then return; fi
  out=$(GCV_FAILFAST=1 GCV_REPO=$R VERIF_DIR=$V timeout 300 $V/bin/gcv all 2>&1); rc=$?
  if [ $rc -ge 2 ]; then echo "BROKEN ($rc) $f:$d $(echo "$out" | tail -1 | cut -c1-100)"
  elif ! echo "$out" | grep -q "FAILED"; then echo "SURVIVED $f:$d"; else echo "killed $f:$d $(echo "$out" | grep -m1 FAILED | cut -c1-120)"; fi
}
for f in "$@"; do
  N=$("$T/mutate" /repo/$f)
  for w in $(seq $W); do
    ( for ((n=w-1;n<N;n+=W)); do one $w $f $n; done; cp /repo/$f $T/r$w/$f ) &
  done
  wait
done
