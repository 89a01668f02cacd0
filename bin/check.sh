#!/bin/bash
# check.sh C01 [quick|thorough]  -- run the check of a property
# check.sh replay FILE           -- re-execute a recorded violation
# check.sh selftest C01          -- determinism test of the simulator
# check.sh build                 -- compile the driver
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=${GOPATH:-$HOME/go} GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
dir=$(cd "$(dirname "$0")/.." && pwd) || exit 2
mkdir -p "$dir/build" || exit 2
(cd "$dir/sim" && go build -o "$dir/build/vdrive" ./cmd/vdrive) || exit 2
case "$1" in
build) exit 0 ;;
replay | selftest) exec "$dir/build/vdrive" "$@" ;;
*) exec "$dir/build/vdrive" check "$@" ;;
esac
