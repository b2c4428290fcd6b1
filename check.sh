#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
./build.sh || exit 2
exec ./.build/gv check -verif "$PWD" -tier "${2:-quick}" "$1"
