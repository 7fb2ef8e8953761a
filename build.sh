#!/bin/bash
# Builds the verifier into /verif/bin (offline).
set -e
cd "$(dirname "$0")/gcv"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin
PATH=/opt/veriftools/go1.27.3/bin:$PATH go build -o ../bin/gcv .
