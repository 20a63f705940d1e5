#!/bin/bash
# run.sh ID [flags]: decide one property (quick or thorough by VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOCACHE="$PWD/build/gocache"
mkdir -p build
t="build/check.$$"
go build -o "$t" ./cmd/check || exit 2
"$t" "$@"
rc=$?
rm -f "$t"
exit $rc
