#!/bin/bash
# Builds the verifier from the committed sources into bin/ (git-ignored).
cd "$(dirname "$0")/govc" || exit 1
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/govc . || exit 1
