#!/bin/bash
# builds the verifier into .build/gv when it is missing or older than its source
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p .build
if [ ! -x .build/gv ] || [ -n "$(find tool -newer .build/gv -name '*.go' -print -quit)" ]; then
  (cd tool && go build -o ../.build/gv.$$ . && mv ../.build/gv.$$ ../.build/gv) || exit 2
fi
