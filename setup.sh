#!/bin/bash
# Warms the Go build cache: the engine, and the code under test with the harnesses.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/engine" && go build ./... || exit 1
echo ok
