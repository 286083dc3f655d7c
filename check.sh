#!/bin/bash
# usage: check.sh <property id|all> [quick|thorough] [more flags]
# Builds the engine (incremental through the Go build cache) and decides one property on /repo's current tree.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-bin-XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
(cd "$V/engine" && go build -o "$W/check" ./cmd/check) || { echo "ERROR: the engine does not build"; exit 2; }
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
"$W/check" -prop "$prop" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$V" "$@"
